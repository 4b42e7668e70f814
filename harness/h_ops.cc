// C11 operator descriptors
#include "bufr_common.h"
#include <algorithm>

static const Vartable& bt() { static auto b = mk(); return *b->tables.btable; }

// Run: operator, governed variables (a number, a code table, a flag table, a text), cancel, the same number again
static const Varcode nums[] = { B(12, 101), B(5, 1), B(10, 4), B(7, 30), B(1, 1) };
static const Varcode CODE = B(20, 3), FLAG = B(8, 42), TEXT = B(1, 6);

// Encode, compare with the layout, decode, compare with the original.
// valid: whether the operator can be honoured
static void roundtrip(BufrBulletin& b, const Ref& ref, bool valid)
{
    std::string m;
    try { m = b.encode(); }
    catch (error&)
    {
        ASSERTL(!valid, "an operator that can be honoured is encoded");
        vs_reach("refused");
        return;
    }
    ASSERTL(valid, "an operator that cannot be honoured is refused");
    check_data(m, ref);
    auto d = BufrBulletin::decode(m);
    same_subsets(b, *d);
    for (unsigned i = 0; i < b.subsets[0].size(); ++i)
    {
        Varinfo x = b.subsets[0][i].info(), y = d->subsets[0][i].info();
        ASSERTL(x->bit_len == y->bit_len && x->bit_ref == y->bit_ref && x->scale == y->scale && x->len == y->len, "decoded variables have the altered definition");
    }
    vs_reach("end");
}

static void put_text(Ref& r, const Var& v)
{
    Varinfo i = v.info();
    if (!v.isset()) { r.ones(i->bit_len); return; }
    const char* s = v.enqc();
    unsigned n = strlen(s);
    for (unsigned k = 0; k < i->bit_len / 8; ++k) r.put(k < n ? (unsigned char)s[k] : ' ', 8);
}

static void govern(Varcode op, Varcode cancel, Varcode num, bool valid, int scale, int bits, int64_t refv)
{
    auto b = mk(4);
    Varinfo plain = bt().query(num);
    b->datadesc = { op, num, CODE, FLAG, TEXT, cancel, num, TEXT };
    Subset& s = b->obtain_subset(0);
    Varinfo alt = valid ? b->tables.btable->query_altered(num, scale, bits, (int)refv) : plain;
    s.store_variable(any_num(alt, "v"));
    s.store_variable(any_num(bt().query(CODE), "c", false));
    s.store_variable(any_num(bt().query(FLAG), "f", false));
    s.store_variable_c(TEXT, "abc");
    s.store_variable(any_num(plain, "w", false));
    s.store_variable_c(TEXT, "xyz");
    Ref ref;
    ASSERT(!valid || (alt->bit_len == (unsigned)bits && alt->scale == scale && alt->bit_ref == refv));
    ref.num(s[0]); ref.num(s[1]); ref.num(s[2]); put_text(ref, s[3]); ref.num(s[4]); put_text(ref, s[5]);
    roundtrip(*b, ref, valid);
}

HARNESS("C11", op_width, load14)
{
    Varcode num = nums[vs_concretize(vs_u("num", 0, 4, 0))];
    unsigned y = vs_concretize(vs_u("y", 1, 255, 129));
    Varinfo i = bt().query(num);
    int bits = (int)i->bit_len + (int)y - 128;
    govern(C(1, y), C(1, 0), num, bits >= 1 && bits <= 32, i->scale, bits, i->bit_ref);
}
HARNESS("C11", op_scale, load14)
{
    Varcode num = nums[vs_concretize(vs_u("num", 0, 4, 0))];
    unsigned y = vs_concretize(vs_u("y", 1, 255, 129));
    Varinfo i = bt().query(num);
    int scale = i->scale + (int)y - 128;
    govern(C(2, y), C(2, 0), num, scale >= -16 && scale <= 16, scale, i->bit_len, i->bit_ref);
}
HARNESS("C11", op_increase, load14)
{
    Varcode num = nums[vs_concretize(vs_u("num", 0, 4, 0))];
    unsigned y = vs_concretize(vs_u("y", 1, 255, 1));
    Varinfo i = bt().query(num);
    int64_t r = i->bit_ref;
    int bits = i->bit_len + (10 * y + 2) / 3;
    for (unsigned k = 0; k < y && k < 12; ++k) r *= 10;
    govern(C(7, y), C(7, 0), num, bits <= 32 && i->scale + (int)y <= 16 && r >= INT32_MIN && r <= INT32_MAX, i->scale + y, bits, r);
}
// Width, scale and increase together
HARNESS("C11", op_combined, load14)
{
    auto b = mk(4);
    Varcode num = nums[vs_concretize(vs_u("num", 0, 2, 0))];
    unsigned w = vs_concretize(vs_u("w", 126, 131, 129)), sc = vs_concretize(vs_u("s", 126, 130, 129)), inc = vs_concretize(vs_u("i", 0, 2, 1));
    Varinfo plain = bt().query(num);
    int bits = (int)plain->bit_len + (int)w - 128 + (inc ? (10 * inc + 2) / 3 : 0), scale = plain->scale + (int)sc - 128 + inc;
    int ref = plain->bit_ref;
    for (unsigned k = 0; k < inc; ++k) ref *= 10;
    if (bits > 32) return;
    b->datadesc = { C(1, w), C(2, sc), C(7, inc), num, C(1, 0), C(2, 0), num, C(7, 0), num };
    Subset& s = b->obtain_subset(0);
    s.store_variable(any_num(b->tables.btable->query_altered(num, scale, bits, ref), "a", false));
    s.store_variable(any_num(b->tables.btable->query_altered(num, plain->scale + inc, plain->bit_len + (inc ? (10 * inc + 2) / 3 : 0), ref), "b", false));
    s.store_variable(any_num(plain, "c", false));
    Ref r;
    for (auto& v : s) r.num(v);
    roundtrip(*b, r, true);
}

HARNESS("C11", op_string_length, load14)
{
    auto b = mk(4);
    static const unsigned ys[] = { 1, 2, 3, 8, 9, 20, 255 };
    unsigned y = ys[vs_concretize(vs_u("y", 0, 6, 2))];
    b->datadesc = { C(8, y), B(1, 1), TEXT, C(8, 0), TEXT, CODE };
    Subset& s = b->obtain_subset(0);
    Varinfo plain = bt().query(TEXT), alt = b->tables.btable->query_altered(TEXT, 0, y * 8, 0);
    ASSERT(alt->len == y && alt->type == Vartype::String);
    char t[3] = "a";
    vs_bytes(t, 2, "t");
    vs_assume(t[0] > ' '); vs_assume(t[1] == 0 || t[1] > ' ');
    s.store_variable(any_num(bt().query(B(1, 1)), "v", false));
    s.store_variable(Var(alt, t));
    s.store_variable(Var(plain, t));
    s.store_variable(any_num(bt().query(CODE), "c", false));
    Ref ref;
    ref.num(s[0]); put_text(ref, s[1]); put_text(ref, s[2]); ref.num(s[3]);
    roundtrip(*b, ref, true);
}

// New reference values: defined, used, and cancelled
HARNESS("C11", op_reference, load14)
{
    auto b = mk(4);
    static const int refs[] = { 0, 1, -1, 100, -500, 32767, -32767, 1000000, -1000000 };
    Varcode num = nums[vs_concretize(vs_u("num", 0, 2, 0))];
    int r = refs[vs_concretize(vs_u("ref", 0, 8, 3))];
    static const unsigned ys[] = { 1, 2, 3, 8, 9, 16, 17, 21, 22, 31, 32, 33, 40, 64, 254 };
    unsigned y = ys[vs_concretize(vs_u("y", 0, sizeof(ys) / sizeof(ys[0]) - 1, 5))];
    Varinfo plain = bt().query(num);
    Varinfo alt = b->tables.btable->query_altered(num, plain->scale, plain->bit_len, r);
    bool valid = y <= 32 && (y == 32 || (unsigned)(r < 0 ? -r : r) < 1u << (y - 1));
    b->datadesc = { C(3, y), num, C(3, 255), num, CODE, C(3, 0), num };
    Subset& s = b->obtain_subset(0);
    s.store_variable(any_num(alt, "v"));
    s.store_variable(any_num(bt().query(CODE), "c", false));
    s.store_variable(any_num(plain, "w", false));
    Ref ref;
    if (valid)
    {
        ref.put(r < 0 ? 1 : 0, 1);
        if (y > 1) ref.put(r < 0 ? -r : r, y - 1);
        ref.num(s[0]); ref.num(s[1]); ref.num(s[2]);
    }
    roundtrip(*b, ref, valid);
}

// Character data inserted in the message
HARNESS("C11", op_characters, load14)
{
    auto b = mk(4);
    static const unsigned ys[] = { 1, 2, 3, 20, 255 };
    unsigned y = ys[vs_concretize(vs_u("y", 0, 4, 1))];
    b->datadesc = { B(1, 1), C(5, y), B(2, 1) };
    Subset& s = b->obtain_subset(0);
    char t[4] = "ab";
    vs_bytes(t, 3, "t");
    unsigned n = vs_concretize(vs_u("n", 0, 3, 2));
    if (n > y) n = y;
    t[n] = 0;
    for (unsigned i = 0; i < n; ++i) vs_assume(t[i] != 0);
    s.store_variable(any_num(bt().query(B(1, 1)), "v", false));
    Varinfo ci = b->tables.get_chardata(C(5, y), y);
    ASSERT(ci->len == y && ci->code == C(5, y));
    s.store_variable(Var(ci, t));
    s.store_variable(any_num(bt().query(B(2, 1)), "w", false));
    Ref ref;
    ref.num(s[0]); put_text(ref, s[1]); ref.num(s[2]);
    std::string m = b->encode();
    check_data(m, ref);
    auto d = BufrBulletin::decode(m);
    ASSERT(d->subsets[0].size() == 3);
    same_var(s[0], d->subsets[0][0]);
    same_var(s[2], d->subsets[0][2]);
    const Var& g = d->subsets[0][1];
    ASSERT(g.code() == C(5, y)); ASSERT(g.isset());
    const char* c = g.enqc();
    for (unsigned i = 0; i < y; ++i)
        if (i < n) ASSERT(c[i] == t[i]);
        else { ASSERT(c[i] == ' ' || c[i] == 0); if (!c[i]) break; }
    vs_reach("end");
}

// Local descriptors with an explicit width
HARNESS("C11", op_local, load14)
{
    auto b = mk(4);
    static const unsigned ys[] = { 1, 2, 7, 8, 9, 12, 16, 17, 24, 33, 40, 255 };
    unsigned y = ys[vs_concretize(vs_u("y", 0, 11, 3))];
    // two of them with the same length, or the same one with two lengths
    bool again = vs_concretize(vs_u("again", 0, 1, 0));
    unsigned lens[] = { y, again ? (y + 32 > 255 ? 8 : y + 32) : y };
    Varcode locals[] = { B(63, 200), again ? B(63, 200) : B(63, 201) };
    b->datadesc = { B(2, 1), C(6, lens[0]), locals[0], C(6, lens[1]), locals[1], B(1, 1) };
    Subset& s = b->obtain_subset(0);
    s.store_variable(any_num(bt().query(B(2, 1)), "v", false));
    Ref ref;
    ref.num(s[0]);
    for (unsigned k = 0; k < 2; ++k)
    {
        y = lens[k];
        Varinfo i = b->tables.get_unknown(locals[k], y);
        ASSERT(i->code == locals[k] && i->bit_len == y && i->type == Vartype::Binary);
        unsigned char t[40];
        memset(t, 0xa5, sizeof t);
        vs_bytes(t, 3, k ? "t" : "u");
        unsigned len = (y + 7) / 8;
        if (y % 8) { vs_assume(len > 3 || t[len - 1] < (1 << (y % 8))); if (len > 3) t[len - 1] &= (1 << (y % 8)) - 1; }
        Var v(i);
        bool unset = vs_concretize(vs_u(k ? "unset2" : "unset1", 0, 1, 0));
        if (unset) ref.ones(y);
        else
        {
            v.sets(std::string((char*)t, len));
            bool ones = true;
            for (unsigned j = 0; j < len; ++j) ones = ones & (t[j] == (j == len - 1 && y % 8 ? (1 << (y % 8)) - 1 : 0xff));
            vs_assume(!ones);
            for (unsigned j = 0; j < len; ++j) ref.put(t[j], j == len - 1 && y % 8 ? y % 8 : 8);
        }
        s.store_variable(v);
    }
    s.store_variable(any_num(bt().query(B(1, 1)), "w", false));
    ref.num(s[3]);
    roundtrip(*b, ref, true);
}
// ... that the tables know with that width
HARNESS("C11", op_local_known, load14)
{
    auto b = mk(4);
    Varcode num = nums[vs_concretize(vs_u("num", 0, 4, 0))];
    Varinfo i = bt().query(num);
    b->datadesc = { B(2, 1), C(6, i->bit_len), num, B(1, 1) };
    Subset& s = b->obtain_subset(0);
    s.store_variable(any_num(bt().query(B(2, 1)), "v", false));
    s.store_variable(any_num(i, "x"));
    s.store_variable(any_num(bt().query(B(1, 1)), "w", false));
    Ref ref;
    for (auto& v : s) ref.num(v);
    roundtrip(*b, ref, true);
}

// Any combination of operators active at once, in any order, over every kind
// of element; then one of them is cancelled, and the same elements follow
struct Active { unsigned w = 0, sc = 0, inc = 0, str = 0; bool newref = false; };
static const int NEWREF = -7;
static Varinfo expected(BufrBulletin& b, Varcode c, const Active& a)
{
    Varinfo i = bt().query(c);
    if (i->type == Vartype::String) return a.str ? b.tables.btable->query_altered(c, i->scale, a.str * 8, i->bit_ref) : i;
    if (c == CODE || c == FLAG) return i;
    int scale = i->scale, bits = i->bit_len, ref = i->bit_ref;
    if (a.sc) scale += (int)a.sc - 128;
    if (a.w) bits += (int)a.w - 128;
    if (a.inc) { scale += a.inc; bits += (10 * a.inc + 2) / 3; for (unsigned k = 0; k < a.inc; ++k) ref *= 10; }
    if (a.newref && c == B(12, 101)) ref = NEWREF;
    return b.tables.btable->query_altered(c, scale, bits, ref);
}
static void elements(BufrBulletin& b, Ref& ref, const Active& a, Varcode num, const char* p)
{
    std::string n(p);
    Subset& s = b.subsets[0];
    auto put = [&](const Var& v) { if (v.info()->type == Vartype::String) put_text(ref, v); else ref.num(v); s.store_variable(v); };
    Varinfo alt = expected(b, num, a), plain = bt().query(num), txt = expected(b, TEXT, a);
    auto& d = b.datadesc;
    d.push_back(num); put(any_num(alt, (n + "n").c_str(), false));
    d.push_back(CODE); put(any_num(bt().query(CODE), (n + "c").c_str(), false));
    d.push_back(TEXT);
    char t[3] = "a";
    vs_bytes(t, 2, (n + "t").c_str());
    vs_assume(t[0] > ' '); vs_assume(t[1] > ' ');
    put(Var(txt, t));
    d.push_back(FLAG); put(any_num(bt().query(FLAG), (n + "f").c_str(), false));
    // a local descriptor known with the width it has now
    d.push_back(C(6, alt->bit_len)); d.push_back(num); put(any_num(alt, (n + "l").c_str(), false));
    // with the width it has in the table, and with another one
    for (unsigned k = 0; k < 2; ++k)
    {
        unsigned bits = k ? 11 : plain->bit_len;
        if (bits == alt->bit_len) continue;
        d.push_back(C(6, bits)); d.push_back(num);
        Varinfo u = b.tables.get_unknown(num, bits);
        ASSERT(u->bit_len == bits);
        unsigned len = (bits + 7) / 8;
        std::string v(len, '\x5a');
        vs_bytes(&v[0], 1, (n + (k ? "u" : "o")).c_str());
        if (len == 1) vs_assume((unsigned char)v[0] < (1 << bits) - 1); else if (bits % 8) v[len - 1] &= (1 << (bits % 8)) - 1;
        Var x(u); x.sets(v);
        for (unsigned j = 0; j < len; ++j) ref.put((unsigned char)v[j], j == len - 1 && bits % 8 ? bits % 8 : 8);
        s.store_variable(x);
    }
    // inserted characters
    d.push_back(C(5, 2)); put(Var(b.tables.get_chardata(C(5, 2), 2), "xy"));
}
HARNESS("C11", op_mixed, load14)
{
    auto b = mk(4);
    Varcode num = nums[vs_concretize(vs_u("num", 0, vs_thorough() ? 1 : 0, 0))];
    static const unsigned ws[] = { 0, 126, 131 }, scs[] = { 0, 127, 130 }, strs[] = { 0, 3, 12 };
    Active a;
    a.w = ws[vs_concretize(vs_u("w", 0, 2, 1))];
    a.sc = scs[vs_concretize(vs_u("s", 0, 2, 1))];
    a.inc = 2 * vs_concretize(vs_u("i", 0, 1, 0));
    a.str = strs[vs_concretize(vs_u("len", 0, 2, 1))];
    // a new reference value, when it does not meet an increase of the reference value
    a.newref = !a.inc && num == B(12, 101) && vs_concretize(vs_u("newref", 0, 1, 0));
    bool rev = vs_concretize(vs_u("rev", 0, vs_thorough() ? 1 : 0, 0));
    Ref ref;
    b->obtain_subset(0);
    auto& d = b->datadesc;
    if (a.w) d.push_back(C(1, a.w));
    if (a.sc) d.push_back(C(2, a.sc));
    if (a.inc) d.push_back(C(7, a.inc));
    if (a.str) d.push_back(C(8, a.str));
    if (rev) std::reverse(d.begin(), d.end());
    if (a.newref)
    {
        d.push_back(C(3, 9)); d.push_back(num); d.push_back(C(3, 255));
        ref.put(1, 1); ref.put(-NEWREF, 8);
        // the encoder takes new reference values from the definition of the next variable
    }
    elements(*b, ref, a, num, "a");
    unsigned cancel = vs_concretize(vs_u("cancel", 0, 4, 0));
    static const Varcode cc[] = { C(1, 0), C(2, 0), C(7, 0), C(8, 0), C(3, 0) };
    d.push_back(cc[cancel]);
    switch (cancel) { case 0: a.w = 0; break; case 1: a.sc = 0; break; case 2: a.inc = 0; break; case 3: a.str = 0; break; case 4: a.newref = false; break; }
    elements(*b, ref, a, num, "b");
    roundtrip(*b, ref, true);
}

// Associated fields
static Varcode af_attr(unsigned sig)
{
    switch (sig)
    {
        case 1: case 8: return B(33, 2);
        case 2: return B(33, 3);
        case 6: return B(33, 50);
        case 7: return B(33, 40);
        case 21: return B(33, 41);
        default: return 0;
    }
}
HARNESS("C11", op_associated, load14)
{
    auto b = mk(4);
    static const unsigned sigs[] = { 1, 2, 6, 7, 8, 21, 3, 12, 40, 63 };
    unsigned sig = sigs[vs_concretize(vs_u("sig", 0, 9, 2))];
    static const unsigned ys[] = { 1, 2, 4, 7, 8, 31, 32 };
    unsigned y = ys[vs_concretize(vs_u("y", 0, 6, 2))];
    uint32_t ones = 0xffffffffu >> (32 - y);
    Varcode ac = af_attr(sig);
    bool two = vs_concretize(vs_u("two", 0, 1, 1));
    b->datadesc = { C(4, y), B(31, 21), B(12, 101), TEXT, C(4, 0), B(1, 1) };
    if (!two) b->datadesc.erase(b->datadesc.begin() + 3);
    Subset& s = b->obtain_subset(0);
    Ref ref;
    Var sv(bt().query(B(31, 21)));
    if (sig != 63) sv.seti(sig);
    s.store_variable(sv);
    ref.put(sig, 6);
    bool fits = true;
    for (unsigned k = 0; k < (two ? 2u : 1u); ++k)
    {
        Var v(bt().query(k ? TEXT : B(12, 101)));
        if (k) v.setc("abc"); else v = any_num(v.info(), "v");
        bool has = ac && vs_concretize(vs_u(k ? "has2" : "has1", 0, 1, 1));
        if (has)
        {
            Var a = any_num(bt().query(ac), k ? "a2" : "a1", false);
            // all ones is the missing value
            vs_assume((uint32_t)a.enqi() != ones);
            if ((uint32_t)a.enqi() > ones) fits = false;
            v.seta(a);
            ref.put(a.enqi(), y);
        } else
            ref.ones(y);
        if (k) put_text(ref, v); else ref.num(v);
        s.store_variable(v);
    }
    s.store_variable(any_num(bt().query(B(1, 1)), "w", false));
    ref.num(s.back());
    std::string m;
    try { m = b->encode(); }
    catch (error&) { ASSERT(!fits); vs_reach("refused"); return; }
    ASSERTL(fits, "a value that does not fit the associated field is refused");
    check_data(m, ref);
    bool undef = vs_concretize(vs_u("undef", 0, 1, 0));
    auto opts = BufrCodecOptions::create();
    opts->decode_adds_undef_attrs = undef;
    auto d = BufrBulletin::decode(m, *opts);
    ASSERT(d->subsets[0].size() == s.size());
    for (unsigned i = 0; i < s.size(); ++i)
    {
        const Var& x = s[i]; const Var& g = d->subsets[0][i];
        same_var(x, g);
        bool governed = i > 0 && i + 1 < s.size();
        const Var* a = ac ? x.enqa(ac) : nullptr;
        const Var* ga = g.next_attr();
        // an absent associated field can decode to an unset attribute
        if (a && a->isset())
        {
            ASSERT(ga); same_var(*a, *ga); ASSERT(!ga->next_attr());
        } else if (ga) {
            ASSERT(governed); ASSERT(ga->code() == ac); ASSERT(!ga->isset()); ASSERT(!ga->next_attr());
        } else if (governed && undef) ASSERT(!ac);
    }
    vs_reach("end");
}
// Operators that are not followed by what they need
HARNESS("C11", op_malformed, load14)
{
    auto b = mk(4);
    unsigned shape = vs_concretize(vs_u("shape", 0, 6, 0));
    unsigned y = vs_concretize(vs_u("y", 1, 255, 4));
    bool bad = true;
    switch (shape)
    {
        case 0: b->datadesc = { C(4, y) }; break;
        case 1: b->datadesc = { C(4, y), B(1, 1) }; break;
        case 2: b->datadesc = { C(4, y), B(31, 21), B(1, 1) }; bad = y > 32; break;
        case 3: b->datadesc = { C(4, 2), B(31, 21), C(4, y), B(31, 21) }; break;
        case 4: b->datadesc = { C(6, y) }; break;
        case 5: b->datadesc = { C(23, 255), B(1, 1) }; break;
        case 6: b->datadesc = { C(22, y), B(1, 1) }; break;
    }
    Subset& s = b->obtain_subset(0);
    if (shape == 2 || shape == 3) s.store_variable_i(B(31, 21), 1);
    s.store_variable_i(B(1, 1), 1);
    if (shape == 3) s.store_variable_i(B(31, 21), 1);
    bool ok = true;
    try { b->encode(); } catch (error&) { ok = false; }
    ASSERT(ok == !bad);
    vs_reach(ok ? "ok" : "refused");
}
