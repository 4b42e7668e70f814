// C04, C05, C06: text and binary values, copies, attributes, comparison
#include "common.h"
#include <climits>
#include <map>

// ---- C04
// a heap copy of exactly n bytes plus terminator, so that over-reads are seen
struct Exact
{
    char* p;
    Exact(const char* src, unsigned n, bool term) { p = new char[n + term ? n + term : 1]; memcpy(p, src, n); if (term) p[n] = 0; }
    ~Exact() { delete[] p; }
};
static void check_text(const Var& var, const char* src, unsigned n, unsigned max)
{
    unsigned want = 0;
    while (want < n && want < max && src[want]) ++want;
    ASSERT(var.isset());
    const char* c = var.enqc();
    for (unsigned i = 0; i < want; ++i) ASSERT(c[i] == src[i]);
    ASSERT(c[want] == 0);
    std::string s = var.enqs();
    ASSERT(s.size() == want && memcmp(s.data(), src, want) == 0);
    ASSERT(var.enq<std::string>() == s);
    ASSERT(var.format("x") == s);
    ASSERT(strcmp(var.enq("default"), c) == 0);
}
HARNESS("C04", text_set, nullptr)
{
    unsigned max = vs_concretize(vs_u("max", 1, vs_thorough() ? 5 : 3, 3)), n = vs_concretize(vs_u("n", 0, vs_thorough() ? 6 : 4, 2));
    unsigned how = vs_concretize(vs_u("how", 0, 6, 0));
    _Varinfo info; info.set_string(WR_VAR(0, 1, 15), "s", max);
    char txt[8] = "abcdef";
    vs_bytes(txt, n, "txt");
    if (n == 0) txt[0] = 0;
    Exact e(txt, n, true);
    Var var(&info);
    if (vs_concretize(vs_u("before", 0, 1, 0))) var.sets("zyxwvut");
    switch (how)
    {
        case 0: var.sets(std::string(txt, n)); break;
        case 1: var.setc(e.p); break;
        case 2: var.setc_truncate(e.p); break;
        case 3: var.setf(e.p); break;
        case 4: var = Var(&info, (const char*)e.p); break;
        case 5: var = Var(&info, std::string(txt, n)); break;
        case 6: var.set(std::string(txt, n)); break;
    }
    if (how == 3 && (n == 0 || txt[0] == 0)) { ASSERT(!var.isset()); return; }
    check_text(var, txt, n, max);
    vs_reach("end");
}
static void check_bin(const Var& var, const unsigned char* src, unsigned n)
{
    unsigned bits = var.info()->bit_len, len = (bits + 7) / 8;
    ASSERT(var.info()->len == len);
    ASSERT(var.isset());
    std::string s = var.enqs();
    ASSERT(s.size() == len);
    const char* c = var.enqc();
    for (unsigned i = 0; i < len; ++i)
    {
        unsigned char want = i < n ? src[i] : 0;
        if (i == len - 1 && bits % 8) want &= (1 << (bits % 8)) - 1;
        ASSERT((unsigned char)s[i] == want);
        ASSERT((unsigned char)c[i] == want);
    }
}
HARNESS("C04", bin_set, nullptr)
{
    unsigned bits = vs_concretize(vs_u("bits", 1, 24, 12)), n = vs_concretize(vs_u("n", 0, 4, 2)), how = vs_concretize(vs_u("how", 0, 4, 0));
    _Varinfo info; info.set_binary(WR_VAR(0, 1, 15), "b", bits);
    unsigned char raw[4] = {1, 0, 3, 255};
    vs_bytes(raw, n, "raw");
    if (how == 1 || how == 2) vs_assume(n == info.len);   // the caller gives all the bytes
    Exact e((const char*)raw, n, false);
    Var var(&info);
    if (vs_concretize(vs_u("before", 0, 1, 0))) var.sets("\xff\xff\xff\xff");
    switch (how)
    {
        case 0: var.sets(std::string((char*)raw, n)); break;
        case 1: var.setc(e.p); break;
        case 2: var.setc_truncate(e.p); break;
        case 3: var = Var(&info, std::string((char*)raw, n)); break;
        case 4: var.set(std::string((char*)raw, n)); break;
    }
    check_bin(var, raw, n);
    Var copy(var);
    check_bin(copy, raw, n);
    ASSERT(copy == var);
    vs_reach("end");
}
// values moving between definitions of different lengths and types
HARNESS("C04", text_setval, nullptr)
{
    unsigned from = vs_concretize(vs_u("from", 0, 3, 0)), to = vs_concretize(vs_u("to", 0, 2, 0));
    unsigned slen = vs_concretize(vs_u("slen", 1, 4, 2)), dlen = vs_concretize(vs_u("dlen", 1, 4, 3));
    bool set = vs_concretize(vs_u("set", 0, 1, 1));
    _Varinfo si, di;
    if (from == 0) si.set_string(WR_VAR(0, 1, 15), "s", slen);
    else if (from == 1) si.set_binary(WR_VAR(0, 1, 15), "b", slen * 8 - 3);
    else if (from == 2) si.set_bufr(WR_VAR(0, 1, 1), "n", "NUMERIC", 0, slen, 0, 16);
    else si.set_bufr(WR_VAR(0, 1, 1), "n", "NUMERIC", 1, slen, 0, 16);
    if (to == 0) di.set_string(WR_VAR(0, 1, 19), "s", dlen);
    else if (to == 1) di.set_binary(WR_VAR(0, 1, 19), "b", dlen * 8 - 5);
    else di.set_bufr(WR_VAR(0, 1, 2), "n", "NUMERIC", 0, dlen, 0, 16);
    char txt[4] = {'a', 'b', 'c', 'd'};
    vs_bytes(txt, slen, "txt");
    Var src(&si);
    int v = 7;
    if (set)
    {
        if (from < 2) src.sets(std::string(txt, slen));
        else if (from == 2) { v = vs_i("v", 0, si.imax, 7); src.seti(v); }
        else { v = vs_i("v", 0, si.imax < 30 ? si.imax : 30, 7); src.seti((int)vs_concretize((unsigned)v)); }
    }
    Var dst(&di);
    if (to < 2) dst.sets("zzzz"); else dst.seti(1);
    bool type_err = false, dom = false;
    try { if (vs_concretize(vs_u("ctor", 0, 1, 0))) dst = Var(&di, src); else dst.setval(src); } catch (error_type&) { type_err = true; } catch (error_domain&) { dom = true; }
    if (!set) { ASSERT(!dst.isset() && !type_err && !dom); vs_reach("unset"); return; }
    if (to == 2 && from < 2) { ASSERT(type_err); vs_reach("refused"); return; }
    ASSERT(!type_err);
    if (to == 2)
    {
        double d = src.enqd();
        if (!dom) ASSERT(dst.enqd() - d <= 0.5 && d - dst.enqd() <= 0.5);
        else ASSERT(d + 0.5 > di.imax);
        vs_reach("number");
        return;
    }
    ASSERT(!dom);
    std::string s = src.enqs();
    if (to == 0) check_text(dst, s.data(), s.size(), dlen);
    else check_bin(dst, (const unsigned char*)s.data(), s.size());
    vs_reach("end");
}

// ---- C05
static _Varinfo D[8];
static void defs()
{
    D[0].set_bufr(WR_VAR(0, 12, 101), "temperature", "K", 2, 5, 0, 16);
    D[1].set_bufr(WR_VAR(0, 1, 1), "block", "NUMERIC", 0, 3, 0, 7);
    D[2].set_string(WR_VAR(0, 1, 15), "s3", 3);
    D[3].set_string(WR_VAR(0, 1, 19), "s5", 5);
    D[4].set_binary(WR_VAR(0, 1, 20), "b12", 12);
    D[5].set_binary(WR_VAR(0, 1, 21), "b20", 20);
    D[6].set_bufr(WR_VAR(0, 33, 7), "confidence", "%", 0, 3, 0, 7);
    D[7].set_bufr(WR_VAR(0, 33, 2), "quality", "CODE TABLE", 0, 1, 0, 2);
}
// what a user can see of a variable
struct Seen
{
    Varinfo info; bool set; std::string val;
    std::vector<Seen> attrs;
    bool operator==(const Seen& o) const
    {
        if (info != o.info || set != o.set || attrs.size() != o.attrs.size()) return false;
        if (set && val != o.val) return false;
        for (size_t i = 0; i < attrs.size(); ++i) if (!(attrs[i] == o.attrs[i])) return false;
        return true;
    }
};
static Seen see(const Var& v, bool with_attrs = true)
{
    Seen r; r.info = v.info(); r.set = v.isset();
    if (r.set)
    {
        if (v.info()->type == Vartype::Integer || v.info()->type == Vartype::Decimal) { int i = v.enqi(); r.val.assign((char*)&i, 4); }
        else r.val = v.enqs();
    }
    if (with_attrs) for (const Var* a = v.next_attr(); a; a = a->next_attr()) r.attrs.push_back(see(*a, false));
    return r;
}
static void fill(Var& v, const char* nm, bool set)
{
    if (!set) { v.unset(); return; }
    switch (v.info()->type)
    {
        case Vartype::Integer: case Vartype::Decimal: v.seti(vs_i(nm, 0, v.info()->imax, 1)); break;
        default: { char b[6] = "abcde"; vs_bytes(b, 5, nm); v.sets(std::string(b, v.info()->len)); break; }
    }
}
static void scramble(Var& v)
{
    switch (v.info()->type)
    {
        case Vartype::Integer: case Vartype::Decimal: v.seti(v.isset() && v.enqi() == 3 ? 2 : 3); break;
        default: { std::string s = v.isset() ? v.enqs() : "a"; if (s.empty()) s = "a"; s[0] = s[0] == 'x' ? 'y' : 'x'; v.sets(s); break; }
    }
    v.seta(Var(&D[6], 99));
    v.unseta(D[7].code);
}
HARNESS("C05", copy_ops, defs)
{
    unsigned ks = vs_concretize(vs_u("src", 0, 5, 2)), kd = vs_concretize(vs_u("dst", 0, 5, 3)), op = vs_concretize(vs_u("op", 0, 7, 2));
    unsigned sset = vs_concretize(vs_u("sset", 0, 1, 1)), dset = vs_concretize(vs_u("dset", 0, 1, 1));
    unsigned satt = vs_concretize(vs_u("satt", 0, 2, 1)), datt = vs_concretize(vs_u("datt", 0, 1, 1));
    if (op != 2 && op != 3) vs_assume(kd == 0 && dset == 0 && datt == 0);
    Var src(&D[ks]), dst(&D[kd]);
    fill(src, "sv", sset); fill(dst, "dv", dset);
    if (satt >= 1) src.seta(Var(&D[6], vs_i("a1", 0, 100, 50)));
    if (satt >= 2) { Var a(&D[7]); src.seta(a); }
    if (datt) dst.seta(Var(&D[7], 1));
    Seen before = see(src);
    Var* got = nullptr; std::unique_ptr<Var> own; bool moved = false;
    switch (op)
    {
        case 0: own.reset(new Var(src)); got = own.get(); break;
        case 1: own.reset(new Var(std::move(src))); got = own.get(); moved = true; break;
        case 2: dst = src; got = &dst; break;
        case 3: dst = std::move(src); got = &dst; moved = true; break;
        case 4: { Var& r = src; src = r; got = &src; break; }
        case 7: { Var& r = src; src = std::move(r); got = &src; break; }
        case 5: src.setattrs(src); got = &src; break;
        case 6: if (satt == 0) return; src.setattrs(*src.next_attr());
                { Seen now = see(src); ASSERT(now.attrs.size() == before.attrs.size() - 1); if (satt == 2) ASSERT(now.attrs[0] == before.attrs[1]); now.attrs = before.attrs; ASSERT(now == before); } vs_reach("own-attrs"); return;
    }
    ASSERT(see(*got) == before);
    if (!moved && got != &src)
    {
        ASSERT(see(src) == before);
        ASSERT(*got == src && src == *got);
        // independent both ways
        scramble(src);
        ASSERT(see(*got) == before);
        Seen s2 = see(src);
        scramble(*got); got->unset();
        ASSERT(see(src) == s2);
        vs_reach("copied");
    } else if (moved) {
        // what is left can still be used and does not affect the copy
        scramble(src);
        src.unset();
        ASSERT(see(*got) == before);
        scramble(*got);
        vs_reach("moved");
    }
    vs_reach("end");
}
// a new variable with another definition takes value and attributes
HARNESS("C05", copy_redefine, defs)
{
    unsigned pair = vs_concretize(vs_u("pair", 0, 3, 0)), satt = vs_concretize(vs_u("satt", 0, 1, 1));
    static const unsigned from[] = {2, 3, 4, 5}, to[] = {3, 2, 5, 4};
    Var src(&D[from[pair]]);
    fill(src, "sv", vs_concretize(vs_u("sset", 0, 1, 1)));
    if (satt) src.seta(Var(&D[6], vs_i("a1", 0, 100, 50)));
    Seen before = see(src);
    Var v(&D[to[pair]], src);
    ASSERT(see(src) == before);
    ASSERT(v.info() == &D[to[pair]]);
    ASSERT(v.isset() == src.isset());
    Seen now = see(v);
    ASSERT(now.attrs.size() == before.attrs.size());
    if (satt) ASSERT(now.attrs[0] == before.attrs[0]);
    vs_reach("end");
}
// attribute chains
HARNESS("C05", attr_history, defs)
{
    static _Varinfo A[4]; static bool done = false;
    if (!done) { A[0].set_bufr(WR_VAR(0, 0, 1), "a", "NUMERIC", 0, 3, 0, 8); A[1].set_bufr(WR_VAR(0, 33, 2), "b", "NUMERIC", 0, 3, 0, 8); A[2].set_bufr(WR_VAR(0, 33, 7), "c", "NUMERIC", 0, 3, 0, 8); A[3].set_bufr(WR_VAR(3, 63, 255), "d", "NUMERIC", 0, 3, 0, 8); done = true; }
    Var var(&D[1], 5);
    int model[4] = {-1, -1, -1, -1};
    unsigned n = vs_thorough() ? 4 : 3;
    for (unsigned i = 0; i < n; ++i)
    {
        char nm[8] = "op0"; nm[2] += i;
        unsigned op = vs_concretize(vs_u(nm, 0, 4, i % 2));
        nm[0] = 'k'; unsigned k = vs_concretize(vs_u(nm, 0, 3, i));
        nm[0] = 'v'; int v = vs_i(nm, 0, 250, 5);
        Var a(&A[k], v);
        if (op == 0) { a.seta(Var(&A[1], 9)); var.seta(a); ASSERT(a.enqi() == v); model[k] = v; }
        else if (op == 1) { var.seta(std::move(a)); model[k] = v; }
        else if (op == 2) { var.seta(std::unique_ptr<Var>(new Var(a))); model[k] = v; }
        else if (op == 3) { var.unseta(A[k].code); model[k] = -1; }
        else { if (k == 0) { var.clear_attrs(); for (auto& m : model) m = -1; } else if (k == 1) { Var c(var); var = c; } else return; }
        // lookups
        unsigned cnt = 0;
        for (unsigned j = 0; j < 4; ++j)
        {
            const Var* f = var.enqa(A[j].code);
            ASSERT((f != nullptr) == (model[j] >= 0));
            if (f) { ++cnt; ASSERT(f->code() == A[j].code); ASSERT(f->enqi() == model[j]); }
        }
        ASSERT(var.enqa(WR_VAR(0, 33, 3)) == nullptr && var.enqa(0) == nullptr && var.enqa(0xfffe) == nullptr);
        // ordered chain, no repetition
        unsigned len = 0; int prev = -1;
        for (const Var* f = var.next_attr(); f; f = f->next_attr()) { ASSERT((int)f->code() > prev); prev = f->code(); ++len; }
        ASSERT(len == cnt);
        ASSERT(var.enqi() == 5);
    }
    vs_reach("end");
}

// attributes with any codes, set or unset, texts or numbers
HARNESS("C05", attr_codes, defs)
{
    unsigned n = vs_thorough() ? 4 : 3;
    static _Varinfo A[5];
    struct M { bool there = false, set = false; int val = 0; } m[5];
    Var var(&D[1], 5);
    static const unsigned char kinds[5][4] = { {1, 1, 1, 1}, {0, 1, 2, 0}, {2, 0, 1, 1}, {1, 2, 0, 2}, {0, 0, 0, 0} };
    unsigned pattern = vs_concretize(vs_u("kinds", 0, 4, 1)), how = vs_concretize(vs_u("how", 0, 1, 0));
    for (unsigned i = 0; i < n; ++i)
    {
        char nm[8] = "code0"; nm[4] += i;
        unsigned kind = kinds[pattern][i];
        if (kind == 2) A[i].set_string(0, "s", 3); else A[i].set_bufr(0, "n", "NUMERIC", 0, 3, 0, 8);
        A[i].code = vs_u(nm, 0, 0xffff, 0x2100 + (7 * i) % 3);
        Var a(&A[i]);
        int v = vs_i("v", 0, 250, 5);
        if (kind == 1) a.seti(v);
        if (kind == 2) a.setc("xyz");
        switch (how) { case 0: var.seta(a); break; case 1: var.seta(std::move(a)); break; }
        // the last one given with the same code stays
        for (unsigned j = 0; j < i; ++j) if (A[j].code == A[i].code) m[j].there = false;
        m[i].there = true; m[i].set = kind; m[i].val = v;
    }
    unsigned after = vs_concretize(vs_u("after", 0, 2, 0));
    if (after == 1)
    {
        Varcode c = vs_u("dropped", 0, 0xffff, 0x2100);
        var.unseta(c);
        for (unsigned j = 0; j < n; ++j) if (A[j].code == c) m[j].there = false;
    }
    if (after == 2) { Var c(var); var.clear_attrs(); ASSERT(!var.next_attr()); var.setattrs(c); }
    unsigned cnt = 0;
    for (unsigned j = 0; j < n; ++j)
    {
        if (!m[j].there) continue;
        ++cnt;
        const Var* f = var.enqa(A[j].code);
        ASSERTL(f, "an attribute that was set is found");
        ASSERT(f->info() == &A[j] && f->isset() == m[j].set);
        if (f->isset()) { if (A[j].type == Vartype::String) ASSERT(!strcmp(f->enqc(), "xyz")); else ASSERT(f->enqi() == m[j].val); }
    }
    int prev = -1; unsigned len = 0;
    for (const Var* f = var.next_attr(); f; f = f->next_attr()) { ASSERT((int)f->code() > prev); prev = f->code(); ++len; }
    ASSERTL(len == cnt, "nothing else is attached");
    vs_reach("end");
}

// ---- C06
static void defs6()
{
    defs();
}
static const unsigned NK = 7;
static void make6(_Varinfo& i, unsigned k)
{
    Varcode c = WR_VAR(0, 12, 101);
    switch (k)
    {
        case 0: i.set_bufr(c, "t", "K", 2, 5, 0, 16); break;
        case 1: i.set_bufr(c, "t", "K", 0, 5, 0, 16); break;
        case 2: i.set_string(c, "t", 3); break;
        case 3: i.set_string(c, "t", 5); break;
        case 4: i.set_binary(c, "t", 12); break;
        case 5: i.set_binary(c, "t", 20); break;
        case 6: i.set_bufr(c, "t", "K", 1, 5, 0, 16); break;
    }
}
HARNESS("C06", var_eq, defs6)
{
    unsigned ka = vs_concretize(vs_u("ka", 0, NK - 1, 0)), kb = vs_concretize(vs_u("kb", 0, NK - 1, 0));
    unsigned sa = vs_concretize(vs_u("sa", 0, 1, 1)), sb = vs_concretize(vs_u("sb", 0, 1, 1));
    _Varinfo ia, ib; make6(ia, ka); make6(ib, kb);
    if (vs_concretize(vs_u("othercode", 0, 1, 0))) ib.code = WR_VAR(0, 12, 102);
    Var a(&ia), b(&ib);
    fill(a, "va", sa); fill(b, "vb", sb);
    // values of different scales: few of them, floating point equality is hard
    if (sa && sb && ia.type == Vartype::Decimal && ib.type == Vartype::Decimal && ia.scale != ib.scale)
    {
        vs_assume(a.enqi() < 12 && b.enqi() < 12);
        vs_concretize(a.enqi()); vs_concretize(b.enqi());
    }
    bool same = ia.code == ib.code && sa == sb;
    if (same && sa)
    {
        if (ia.type != ib.type) same = false;
        else if (ia.type == Vartype::Binary) same = ia.bit_len == ib.bit_len && a.enqs() == b.enqs();
        else if (ia.type == Vartype::String) same = a.enqs() == b.enqs();
        else if (ia.scale == ib.scale) same = a.enqi() == b.enqi();
        else same = ia.scale > ib.scale ? a.enqi() == b.enqi() * 10 : a.enqi() * 10 == b.enqi();
    }
    ASSERT((a == b) == same);
    ASSERT((b == a) == same);
    ASSERT((a != b) == !same);
    ASSERT((a.diff(b) == 0) == same);
    ASSERT((b.diff(a) == 0) == same);
    vs_reach(same ? "equal" : "different");
}
HARNESS("C06", var_attrs_eq, defs6)
{
    Var a(&D[1]), b(&D[1]);
    if (vs_concretize(vs_u("set", 0, 1, 1))) { a.seti(5); b.seti(5); }
    bool same = true;
    unsigned n[2], code[2][2]; int val[2][2]; bool isset[2][2];
    for (unsigned w = 0; w < 2; ++w)
    {
        Var& v = w ? b : a;
        char nm[8] = "n0"; nm[1] += w;
        unsigned m = vs_concretize(vs_u(nm, 0, 3, 1));   // bit mask of attributes
        n[w] = m;
        for (unsigned k = 0; k < 2; ++k) if (m & (1 << k))
        {
            char q[8] = "v00"; q[1] += w; q[2] += k;
            Var at(&D[6 + k]);
            val[w][k] = vs_i(q, 0, k ? 3 : 101, 1);
            isset[w][k] = val[w][k] != (k ? 3 : 101);
            if (isset[w][k]) at.seti(val[w][k]);
            v.seta(at);
        }
    }
    same = n[0] == n[1];
    for (unsigned k = 0; k < 2; ++k) if (same && (n[0] & (1 << k))) same = val[0][k] == val[1][k];
    ASSERT((a == b) == same);
    ASSERT((b == a) == same);
    ASSERT((a.diff(b) == 0) == same);
    ASSERT((b.diff(a) == 0) == same);
    ASSERT(a == a && a.diff(a) == 0);
    vs_reach(same ? "equal" : "different");
}
