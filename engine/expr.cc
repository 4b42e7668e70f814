#include "expr.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include <unordered_map>
#include <cstdio>
#include <cstdlib>
using boost::multiprecision::cpp_rational;
using boost::multiprecision::cpp_int;
typedef __int128 i128;

// ---------------------------------------------------------------- hash consing
static std::vector<Expr*> table;
static size_t tcount = 0;
static char* arena = nullptr; static size_t aleft = 0;
static uint32_t nextid = 1;
u64 g_fp_lemmas = 0;
Expr* g_side = nullptr;

void expr_init() { if (table.empty()) table.resize(1 << 16); }
unsigned expr_count() { return nextid; }

static Expr* anew()
{
    if (aleft < sizeof(Expr)) { aleft = 1 << 20; arena = (char*)malloc(aleft); }
    Expr* e = (Expr*)arena; arena += sizeof(Expr); aleft -= sizeof(Expr);
    return e;
}
static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 12) + (h >> 4); return h * 0xff51afd7ed558ccdULL; }

static Expr* intern(const Expr& t)
{
    u64 h = mix(mix(mix(mix(t.op * 131 + t.w, t.lo), (u64)t.a), (u64)t.b), (u64)t.c);
    if (t.op == O_CONST) h = mix(h, t.val);
    if (t.op == O_VAR) h = mix(h, t.var + 77);
    h ^= h >> 29;
    if (tcount * 2 > table.size())
    {
        std::vector<Expr*> old(table.size() * 2);
        old.swap(table);
        for (auto* e : old) if (e) { size_t i = e->h & (table.size() - 1); while (table[i]) i = (i + 1) & (table.size() - 1); table[i] = e; }
    }
    size_t i = h & (table.size() - 1);
    while (table[i])
    {
        Expr* e = table[i];
        if (e->h == h && e->op == t.op && e->w == t.w && e->lo == t.lo && e->a == t.a && e->b == t.b && e->c == t.c && (t.op != O_CONST || e->val == t.val) && (t.op != O_VAR || e->var == t.var)) return e;
        i = (i + 1) & (table.size() - 1);
    }
    Expr* e = anew(); *e = t; e->h = h; e->id = nextid++;
    table[i] = e; ++tcount;
    return e;
}

static inline bool isc(Expr* e) { return e->op == O_CONST; }
Expr* mk_const(unsigned w, u64 v)
{
    Expr t{}; t.op = O_CONST; t.w = w; t.val = v & mask(w); t.ulo = t.uhi = t.pm = t.val;
    return intern(t);
}
Expr* mk_var(unsigned w, u64 val, uint32_t n, u64 lo, u64 hi)
{
    Expr t{}; t.op = O_VAR; t.w = w; t.val = val & mask(w); t.var = n; t.ulo = lo; t.uhi = hi;
    unsigned k = hi ? 64 - __builtin_clzll(hi) : 0; t.pm = mask(k) & mask(w); if (k == 0) t.pm = 0;
    return intern(t);
}
static u64 topmask(u64 v) { return v ? mask(64 - __builtin_clzll(v)) : 0; }

static Expr* fin(Expr t)
{
    // default range
    if (t.pm == 0 && t.uhi == 0 && t.ulo == 0) { t.pm = mask(t.w); t.uhi = mask(t.w); }
    if (t.uhi > mask(t.w)) t.uhi = mask(t.w);
    t.pm &= mask(t.w) & topmask(t.uhi);
    if (t.uhi > t.pm) t.uhi = t.pm;   // value <= pm
    t.val &= mask(t.w);
    if (t.ulo == t.uhi) return mk_const(t.w, t.ulo);
    return intern(t);
}

// concrete evaluation of integer operators
static u64 evbin(Op op, unsigned w, u64 a, u64 b, bool& ok)
{
    ok = true;
    switch (op)
    {
        case O_ADD: return (a + b) & mask(w);
        case O_SUB: return (a - b) & mask(w);
        case O_MUL: return (a * b) & mask(w);
        case O_UDIV: if (!b) { return mask(w); } return a / b;
        case O_UREM: if (!b) { return a; } return a % b;
        case O_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : mask(w); if (y == -1) return (u64)(-(u64)x) & mask(w); return (u64)(x / y) & mask(w); }
        case O_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & mask(w); }
        case O_AND: return a & b;
        case O_OR: return a | b;
        case O_XOR: return a ^ b;
        case O_SHL: return b >= w ? 0 : (a << b) & mask(w);
        case O_LSHR: return b >= w ? 0 : a >> b;
        case O_ASHR: return (u64)(sx(a, w) >> (b >= w ? 63 : b)) & mask(w);
        default: ok = false; return 0;
    }
}

// segment decomposition, low part first
struct Seg { Expr* e; };
static void segs(Expr* e, std::vector<Expr*>& out)
{
    if (e->op == O_CONCAT) { segs(e->b, out); segs(e->a, out); }
    else if (e->op == O_ZEXT) { segs(e->a, out); out.push_back(mk_const(e->w - e->a->w, 0)); }
    else out.push_back(e);
}
static Expr* unsegs(const std::vector<Expr*>& v)
{
    Expr* r = v[0];
    for (size_t i = 1; i < v.size(); ++i) r = mk_concat(v[i], r);
    return r;
}
// split both lists on common boundaries
static void align(std::vector<Expr*> a, std::vector<Expr*> b, std::vector<Expr*>& oa, std::vector<Expr*>& ob)
{
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size())
    {
        unsigned w = a[i]->w < b[j]->w ? a[i]->w : b[j]->w;
        Expr* x = a[i]; Expr* y = b[j];
        oa.push_back(mk_extract(x, w - 1, 0)); ob.push_back(mk_extract(y, w - 1, 0));
        if (x->w > w) a[i] = mk_extract(x, x->w - 1, w); else ++i;
        if (y->w > w) b[j] = mk_extract(y, y->w - 1, w); else ++j;
    }
}
static bool tryOr(Expr* a, Expr* b, Expr*& res)
{
    // possible-one masks are disjoint: combine by segments
    std::vector<Expr*> sa, sb, oa, ob, r;
    segs(a, sa); segs(b, sb);
    if (sa.size() == 1 && sb.size() == 1) return false;
    if (sa.size() + sb.size() > 24) return false;
    align(sa, sb, oa, ob);
    for (size_t i = 0; i < oa.size(); ++i)
    {
        if (isc(oa[i]) && oa[i]->val == 0) r.push_back(ob[i]);
        else if (isc(ob[i]) && ob[i]->val == 0) r.push_back(oa[i]);
        else if (isc(oa[i]) && isc(ob[i])) r.push_back(mk_const(oa[i]->w, oa[i]->val | ob[i]->val));
        else return false;
    }
    res = unsegs(r);
    return true;
}
static unsigned runs(u64 m, unsigned w)
{
    unsigned n = 1; for (unsigned i = 1; i < w; ++i) if (((m >> i) ^ (m >> (i - 1))) & 1) ++n;
    return n;
}

Expr* mk_not(Expr* a)
{
    if (isc(a)) return mk_const(a->w, ~a->val);
    if (a->op == O_NOT) return a->a;
    if (a->w == 1)
    {
        if (a->op == O_ULT) return mk_cmp(O_ULE, a->b, a->a);
        if (a->op == O_ULE) return mk_cmp(O_ULT, a->b, a->a);
        if (a->op == O_SLT) return mk_cmp(O_SLE, a->b, a->a);
        if (a->op == O_SLE) return mk_cmp(O_SLT, a->b, a->a);
    }
    Expr t{}; t.op = O_NOT; t.w = a->w; t.a = a; t.val = ~a->val;
    return fin(t);
}
Expr* mk_neg(Expr* a)
{
    if (isc(a)) return mk_const(a->w, -a->val);
    if (a->op == O_NEG) return a->a;
    Expr t{}; t.op = O_NEG; t.w = a->w; t.a = a; t.val = -a->val;
    return fin(t);
}
static bool srange(Expr* e, i64& lo, i64& hi);

Expr* mk_bin(Op op, Expr* a, Expr* b)
{
    unsigned w = a->w; bool ok;
    u64 val = evbin(op, w, a->val, b->val, ok);
    if (isc(a) && isc(b)) return mk_const(w, val);
    u64 M = mask(w);
    bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR;
    if (comm && (isc(a) || (!isc(b) && a->id > b->id))) { Expr* x = a; a = b; b = x; }
    Expr t{}; t.op = op; t.w = w; t.val = val;
    switch (op)
    {
        case O_ADD:
            if (isc(b))
            {
                if (b->val == 0) return a;
                if (a->op == O_ADD && isc(a->b)) return mk_bin(O_ADD, a->a, mk_const(w, a->b->val + b->val));
                if (a->op == O_ITE && isc(a->b) && isc(a->c)) return mk_ite(a->a, mk_const(w, a->b->val + b->val), mk_const(w, a->c->val + b->val));
            }
            if ((a->pm & b->pm) == 0) return mk_bin(O_OR, a, b);
            if (w == 1) return mk_bin(O_XOR, a, b);
            if (!(a->uhi > M - b->uhi)) { t.ulo = a->ulo + b->ulo; t.uhi = a->uhi + b->uhi; t.pm = M;
                unsigned tz = __builtin_ctzll((a->pm | b->pm)); t.pm &= ~mask(tz) | 0; if (tz) t.pm = M & ~mask(tz); }
            else if (isc(b) && a->ulo > M - b->val) { t.ulo = (a->ulo + b->val) & M; t.uhi = (a->uhi + b->val) & M; t.pm = M; }
            else { unsigned tz = __builtin_ctzll((a->pm | b->pm)); t.pm = M & ~mask(tz); if (!tz) t.pm = M; t.uhi = M; }
            break;
        case O_SUB:
            if (a == b) return mk_const(w, 0);
            if (isc(b)) return mk_bin(O_ADD, a, mk_const(w, -b->val));
            if (a->op == O_ADD && a->a == b) return a->b;
            if (a->op == O_ADD && a->b == b) return a->a;
            // (x + c) - (y + d)
            if (a->op == O_ADD && isc(a->b) && b->op == O_ADD && isc(b->b)) return mk_bin(O_ADD, mk_bin(O_SUB, a->a, b->a), mk_const(w, a->b->val - b->b->val));
            if (w == 1) return mk_bin(O_XOR, a, b);
            if (a->ulo >= b->uhi) { t.ulo = a->ulo - b->uhi; t.uhi = a->uhi - b->ulo; t.pm = M; }
            break;
        case O_MUL:
            if (isc(b))
            {
                if (b->val == 0) return b;
                if (b->val == 1) return a;
                if ((b->val & (b->val - 1)) == 0) return mk_bin(O_SHL, a, mk_const(w, __builtin_ctzll(b->val)));
                if (a->op == O_ADD && isc(a->b)) return mk_bin(O_ADD, mk_bin(O_MUL, a->a, b), mk_const(w, a->b->val * b->val));
            }
            if (w == 1) return mk_bin(O_AND, a, b);
            {
                unsigned __int128 hi = (unsigned __int128)a->uhi * b->uhi;
                unsigned tz = (a->pm ? __builtin_ctzll(a->pm) : 0) + (b->pm ? __builtin_ctzll(b->pm) : 0);
                if (hi <= M) { t.ulo = a->ulo * b->ulo; t.uhi = (u64)hi; }
                else { t.ulo = 0; t.uhi = M; }
                t.pm = tz >= w ? 0 : M & ~mask(tz); if (tz == 0) t.pm = M;
                if (t.pm == 0) return mk_const(w, 0);
            }
            break;
        case O_AND:
            if (a == b) return a;
            if (isc(b))
            {
                if (b->val == 0) return b;
                if ((a->pm & ~b->val) == 0) return a;
                u64 m = b->val & a->pm;
                if (m == 0) return mk_const(w, 0);
                if (a->op == O_AND && isc(a->b)) return mk_bin(O_AND, a->a, mk_const(w, a->b->val & b->val));
                if (w > 1 && runs(b->val, w) <= 5)
                {
                    std::vector<Expr*> r; unsigned i = 0;
                    while (i < w)
                    {
                        unsigned j = i; bool one = (b->val >> i) & 1;
                        while (j < w && (((b->val >> j) & 1) != 0) == one) ++j;
                        r.push_back(one ? mk_extract(a, j - 1, i) : mk_const(j - i, 0));
                        i = j;
                    }
                    return unsegs(r);
                }
            }
            if (w == 1 && (a == mk_not(b))) return mk_const(1, 0);
            t.uhi = a->uhi < b->uhi ? a->uhi : b->uhi; t.pm = a->pm & b->pm; if (!t.pm) return mk_const(w, 0);
            break;
        case O_OR:
            if (a == b) return a;
            if (isc(b) && b->val == 0) return a;
            if (isc(b) && b->val == M) return b;
            if (w == 1 && (a == mk_not(b))) return mk_const(1, 1);
            if ((a->pm & b->pm) == 0)
            {
                Expr* r;
                if (tryOr(a, b, r)) return r;
                t.ulo = a->ulo + b->ulo; t.uhi = a->uhi + b->uhi; t.pm = a->pm | b->pm;
            }
            else { t.pm = a->pm | b->pm; t.uhi = topmask(a->uhi | b->uhi) ; t.ulo = a->ulo > b->ulo ? a->ulo : b->ulo; }
            if (isc(b) && w > 1 && runs(b->val, w) <= 5)
            {
                std::vector<Expr*> r; unsigned i = 0;
                while (i < w)
                {
                    unsigned j = i; bool one = (b->val >> i) & 1;
                    while (j < w && (((b->val >> j) & 1) != 0) == one) ++j;
                    r.push_back(one ? mk_const(j - i, ~0ULL) : mk_extract(a, j - 1, i));
                    i = j;
                }
                return unsegs(r);
            }
            break;
        case O_XOR:
            if (a == b) return mk_const(w, 0);
            if (isc(b) && b->val == 0) return a;
            if (isc(b) && b->val == M) return mk_not(a);
            if ((a->pm & b->pm) == 0) return mk_bin(O_OR, a, b);
            if (isc(b) && a->op == O_XOR && isc(a->b)) return mk_bin(O_XOR, a->a, mk_const(w, a->b->val ^ b->val));
            if (isc(b) && a->op == O_ITE && isc(a->b) && isc(a->c)) return mk_ite(a->a, mk_const(w, a->b->val ^ b->val), mk_const(w, a->c->val ^ b->val));
            t.pm = a->pm | b->pm; t.uhi = topmask(a->uhi | b->uhi);
            break;
        case O_SHL:
            if (isc(b))
            {
                if (b->val == 0) return a;
                if (b->val >= w) return mk_const(w, 0);
                return mk_concat(mk_extract(a, w - 1 - b->val, 0), mk_const(b->val, 0));
            }
            if (isc(a) && a->val == 0) return a;
            if (b->uhi < w && a->uhi && (64 - (unsigned)__builtin_clzll(a->uhi)) + b->uhi <= w) { t.ulo = a->ulo << b->ulo; t.uhi = a->uhi << b->uhi; t.pm = topmask(t.uhi); }
            break;
        case O_LSHR:
            if (isc(b))
            {
                if (b->val == 0) return a;
                if (b->val >= w) return mk_const(w, 0);
                return mk_zext(mk_extract(a, w - 1, b->val), w);
            }
            t.uhi = a->uhi; t.pm = topmask(a->uhi); if (!a->uhi) return mk_const(w, 0);
            break;
        case O_ASHR:
            if (isc(b))
            {
                if (b->val == 0) return a;
                unsigned s = b->val >= w ? w - 1 : b->val;
                return mk_sext(mk_extract(a, w - 1, s), w);
            }
            if (a->uhi <= (M >> 1)) return mk_bin(O_LSHR, a, b);
            break;
        case O_UDIV:
            if (isc(b))
            {
                if (b->val == 1) return a;
                if (b->val && (b->val & (b->val - 1)) == 0) return mk_bin(O_LSHR, a, mk_const(w, __builtin_ctzll(b->val)));
                if (b->val) { t.ulo = a->ulo / b->val; t.uhi = a->uhi / b->val; t.pm = topmask(t.uhi); if (!t.uhi) return mk_const(w, 0); }
                // narrow
                if (b->val && a->op == O_ZEXT && b->uhi <= mask(a->a->w)) return mk_zext(mk_bin(O_UDIV, a->a, mk_const(a->a->w, b->val)), w);
            }
            break;
        case O_UREM:
            if (isc(b) && b->val)
            {
                if (a->uhi < b->val) return a;
                if ((b->val & (b->val - 1)) == 0) return mk_bin(O_AND, a, mk_const(w, b->val - 1));
                t.uhi = b->val - 1; t.pm = topmask(t.uhi);
                if (a->op == O_ZEXT && b->uhi <= mask(a->a->w)) return mk_zext(mk_bin(O_UREM, a->a, mk_const(a->a->w, b->val)), w);
            }
            break;
        case O_SDIV: case O_SREM:
            if (a->uhi <= (M >> 1) && b->uhi <= (M >> 1) && (b->ulo > 0)) return mk_bin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
            break;
        default: break;
    }
    t.a = a; t.b = b;
    return fin(t);
}

static bool srange(Expr* e, i64& lo, i64& hi)
{
    u64 half = mask(e->w) >> 1;
    if (e->uhi <= half) { lo = e->ulo; hi = e->uhi; return true; }
    if (e->ulo > half) { lo = sx(e->ulo, e->w); hi = sx(e->uhi, e->w); return true; }
    lo = sx(half + 1, e->w); hi = half;
    if (e->op == O_SEXT) return srange(e->a, lo, hi);
    if (e->op == O_ADD && isc(e->b))
    {
        i64 l, h; srange(e->a, l, h);
        i128 L = (i128)l + sx(e->b->val, e->w), H = (i128)h + sx(e->b->val, e->w);
        if (L >= sx(half + 1, e->w) && H <= (i128)half) { lo = L; hi = H; }
    }
    else if (e->op == O_MUL && isc(e->b))
    {
        i64 l, h; srange(e->a, l, h); i64 k = sx(e->b->val, e->w);
        i128 L = (i128)l * k, H = (i128)h * k; if (L > H) std::swap(L, H);
        if (L >= sx(half + 1, e->w) && H <= (i128)half) { lo = L; hi = H; }
    }
    else if (e->op == O_ITE)
    {
        i64 l, h, l2, h2; srange(e->b, l, h); srange(e->c, l2, h2);
        lo = l < l2 ? l : l2; hi = h > h2 ? h : h2;
    }
    else if (e->op == O_NEG)
    {
        i64 l, h; srange(e->a, l, h);
        if (l > sx(half + 1, e->w)) { lo = -h; hi = -l; }
    }
    return true;
}

Expr* mk_cmp(Op op, Expr* a, Expr* b)
{
    unsigned w = a->w;
    bool v;
    switch (op)
    {
        case O_EQ: v = a->val == b->val; break;
        case O_ULT: v = a->val < b->val; break;
        case O_ULE: v = a->val <= b->val; break;
        case O_SLT: v = sx(a->val, w) < sx(b->val, w); break;
        default: v = sx(a->val, w) <= sx(b->val, w); break;
    }
    if (isc(a) && isc(b)) return mk_const(1, v);
    if (a == b) return mk_const(1, op == O_EQ || op == O_ULE || op == O_SLE);
    Expr t{}; t.op = op; t.w = 1; t.val = v; t.uhi = 1; t.pm = 1;
    if (op == O_EQ)
    {
        if (isc(a) || (!isc(b) && a->id > b->id)) std::swap(a, b);
        if (a->uhi < b->ulo || b->uhi < a->ulo) return mk_const(1, 0);
        if (isc(b))
        {
            if (b->val & ~a->pm) return mk_const(1, 0);
            if (w == 1) return b->val ? a : mk_not(a);
            switch (a->op)
            {
                case O_ZEXT: return mk_cmp(O_EQ, a->a, mk_const(a->a->w, b->val));
                case O_SEXT: if (mask(w) == (mask(w) & 0) || (u64)(sx(b->val & mask(a->a->w), a->a->w)) % 1 == 0) {
                        if (((u64)sx(b->val & mask(a->a->w), a->a->w) & mask(w)) != b->val) return mk_const(1, 0);
                        return mk_cmp(O_EQ, a->a, mk_const(a->a->w, b->val)); } break;
                case O_ADD: if (isc(a->b)) return mk_cmp(O_EQ, a->a, mk_const(w, b->val - a->b->val)); break;
                case O_XOR: if (isc(a->b)) return mk_cmp(O_EQ, a->a, mk_const(w, b->val ^ a->b->val)); break;
                case O_NOT: return mk_cmp(O_EQ, a->a, mk_const(w, ~b->val));
                case O_NEG: return mk_cmp(O_EQ, a->a, mk_const(w, -b->val));
                case O_CONCAT:
                {
                    Expr* hi = mk_cmp(O_EQ, a->a, mk_const(a->a->w, b->val >> a->b->w));
                    Expr* lo = mk_cmp(O_EQ, a->b, mk_const(a->b->w, b->val));
                    return mk_bin(O_AND, hi, lo);
                }
                case O_ITE:
                {
                    bool bc = isc(a->b), cc = isc(a->c);
                    if (bc && cc)
                    {
                        if (a->b->val == b->val && a->c->val == b->val) return mk_const(1, 1);
                        if (a->b->val == b->val) return a->a;
                        if (a->c->val == b->val) return mk_not(a->a);
                        return mk_const(1, 0);
                    }
                    if (bc || cc)
                        return mk_bin(O_OR, mk_bin(O_AND, a->a, mk_cmp(O_EQ, a->b, b)), mk_bin(O_AND, mk_not(a->a), mk_cmp(O_EQ, a->c, b)));
                    break;
                }
                default: break;
            }
        }
        else
        {
            if (a->op == O_ZEXT && b->op == O_ZEXT)
            {
                Expr *x = a->a, *y = b->a; unsigned m = x->w > y->w ? x->w : y->w;
                return mk_cmp(O_EQ, mk_zext(x, m), mk_zext(y, m));
            }
            if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mk_cmp(O_EQ, a->a, b->a);
            if (a->op == O_ADD && isc(a->b))
            {
                if (a->a == b) return mk_const(1, a->b->val == 0);
                if (b->op == O_ADD && isc(b->b)) return mk_cmp(O_EQ, a->a, mk_bin(O_ADD, b->a, mk_const(w, b->b->val - a->b->val)));
            }
            if (a->op == O_CONCAT && b->op == O_CONCAT && a->a->w == b->a->w)
                return mk_bin(O_AND, mk_cmp(O_EQ, a->a, b->a), mk_cmp(O_EQ, a->b, b->b));
        }
    }
    else if (op == O_ULT || op == O_ULE)
    {
        if (op == O_ULT) { if (a->uhi < b->ulo) return mk_const(1, 1); if (a->ulo >= b->uhi) return mk_const(1, 0); }
        else { if (a->uhi <= b->ulo) return mk_const(1, 1); if (a->ulo > b->uhi) return mk_const(1, 0); }
        // canonical: compare against constants with ULT/ULE kept; x < 1 => x == 0
        if (isc(b) && op == O_ULT && b->val == 1) return mk_cmp(O_EQ, a, mk_const(w, 0));
        if (isc(b) && op == O_ULE && b->val == 0) return mk_cmp(O_EQ, a, b);
        if (isc(a) && op == O_ULT && a->val == 0) return mk_not(mk_cmp(O_EQ, b, a));
        if (isc(a) && op == O_ULE && a->val == 1) return mk_not(mk_cmp(O_EQ, b, mk_const(w, 0)));
        if (isc(b) && op == O_ULE && b->val < mask(w)) return mk_cmp(O_ULT, a, mk_const(w, b->val + 1));
        if (isc(a) && op == O_ULE && a->val > 0) return mk_cmp(O_ULT, mk_const(w, a->val - 1), b);
        auto narrow = [&](Expr* x) -> unsigned { return isc(x) ? (x->val ? 64 - __builtin_clzll(x->val) : 1) : x->op == O_ZEXT ? x->a->w : w; };
        unsigned m = narrow(a) > narrow(b) ? narrow(a) : narrow(b);
        if (m < w) return mk_cmp(op, mk_extract(a, m - 1, 0), mk_extract(b, m - 1, 0));
        if (w == 1) { if (op == O_ULT) return mk_bin(O_AND, mk_not(a), b); else return mk_bin(O_OR, mk_not(a), b); }
    }
    else
    {
        i64 al, ah, bl, bh; srange(a, al, ah); srange(b, bl, bh);
        if (op == O_SLT) { if (ah < bl) return mk_const(1, 1); if (al >= bh) return mk_const(1, 0); }
        else { if (ah <= bl) return mk_const(1, 1); if (al > bh) return mk_const(1, 0); }
        u64 half = mask(w) >> 1;
        if (a->uhi <= half && b->uhi <= half) return mk_cmp(op == O_SLT ? O_ULT : O_ULE, a, b);
        if (isc(b) && op == O_SLE && b->val != half) return mk_cmp(O_SLT, a, mk_const(w, b->val + 1));
        if (isc(a) && op == O_SLE && a->val != half + 1) return mk_cmp(O_SLT, mk_const(w, a->val - 1), b);
        // sext of same width
        auto sw = [&](Expr* x) -> unsigned { if (x->op == O_SEXT) return x->a->w; if (x->op == O_ZEXT) return x->a->w + 1; if (isc(x)) { for (unsigned k = 1; k < w; ++k) if (sx(x->val & mask(k), k) == sx(x->val, w)) return k; } return w; };
        unsigned m = sw(a) > sw(b) ? sw(a) : sw(b);
        if (m < w) return mk_cmp(op, mk_extract(a, m - 1, 0), mk_extract(b, m - 1, 0));
        // x + c < 0  where no wrap:  keep
    }
    t.a = a; t.b = b;
    return fin(t);
}

Expr* mk_ite(Expr* c, Expr* a, Expr* b)
{
    if (isc(c)) return c->val ? a : b;
    if (a == b) return a;
    if (c->op == O_NOT) return mk_ite(c->a, b, a);
    if (a->w == 1)
    {
        if (isc(a) && isc(b)) return a->val ? c : mk_not(c);
        if (isc(a)) return a->val ? mk_bin(O_OR, c, b) : mk_bin(O_AND, mk_not(c), b);
        if (isc(b)) return b->val ? mk_bin(O_OR, mk_not(c), a) : mk_bin(O_AND, c, a);
    }
    if (a->op == O_ITE && a->a == c) a = a->b;
    if (b->op == O_ITE && b->a == c) b = b->c;
    if (a == b) return a;
    Expr t{}; t.op = O_ITE; t.w = a->w; t.a = c; t.b = a; t.c = b; t.val = c->val ? a->val : b->val;
    t.ulo = a->ulo < b->ulo ? a->ulo : b->ulo; t.uhi = a->uhi > b->uhi ? a->uhi : b->uhi; t.pm = a->pm | b->pm;
    return fin(t);
}
Expr* mk_zext(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    if (isc(a)) return mk_const(w, a->val);
    if (a->op == O_ZEXT) return mk_zext(a->a, w);
    if (a->op == O_CONCAT && isc(a->a) && a->a->val == 0) return mk_zext(a->b, w);
    Expr t{}; t.op = O_ZEXT; t.w = w; t.a = a; t.val = a->val; t.ulo = a->ulo; t.uhi = a->uhi; t.pm = a->pm;
    return fin(t);
}
Expr* mk_sext(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    if (isc(a)) return mk_const(w, (u64)sx(a->val, a->w));
    if (a->uhi <= (mask(a->w) >> 1)) return mk_zext(a, w);
    if (a->op == O_SEXT) return mk_sext(a->a, w);
    if (a->w == 1) return mk_ite(a, mk_const(w, ~0ULL), mk_const(w, 0));
    Expr t{}; t.op = O_SEXT; t.w = w; t.a = a; t.val = (u64)sx(a->val, a->w);
    return fin(t);
}
Expr* mk_extract(Expr* a, unsigned hi, unsigned lo)
{
    unsigned w = hi - lo + 1;
    if (w == a->w) return a;
    if (isc(a)) return mk_const(w, a->val >> lo);
    if (((a->pm >> lo) & mask(w)) == 0) return mk_const(w, 0);
    switch (a->op)
    {
        case O_EXTRACT: return mk_extract(a->a, hi + a->lo, lo + a->lo);
        case O_CONCAT:
        {
            unsigned lw = a->b->w;
            if (hi < lw) return mk_extract(a->b, hi, lo);
            if (lo >= lw) return mk_extract(a->a, hi - lw, lo - lw);
            return mk_concat(mk_extract(a->a, hi - lw, 0), mk_extract(a->b, lw - 1, lo));
        }
        case O_ZEXT:
            if (hi < a->a->w) return mk_extract(a->a, hi, lo);
            if (lo >= a->a->w) return mk_const(w, 0);
            return mk_zext(mk_extract(a->a, a->a->w - 1, lo), w);
        case O_SEXT:
            if (hi < a->a->w) return mk_extract(a->a, hi, lo);
            if (lo < a->a->w) return mk_sext(mk_extract(a->a, a->a->w - 1, lo), w);
            break;
        case O_AND: case O_OR: case O_XOR:
            return mk_bin(a->op, mk_extract(a->a, hi, lo), mk_extract(a->b, hi, lo));
        case O_NOT: return mk_not(mk_extract(a->a, hi, lo));
        case O_ADD: case O_SUB: case O_MUL:
            if (lo == 0) return mk_bin(a->op, mk_extract(a->a, hi, 0), mk_extract(a->b, hi, 0));
            break;
        case O_NEG: if (lo == 0) return mk_neg(mk_extract(a->a, hi, 0)); break;
        case O_ITE:
            if (isc(a->b) || isc(a->c) || a->w - w >= 0) return mk_ite(a->a, mk_extract(a->b, hi, lo), mk_extract(a->c, hi, lo));
            break;
        default: break;
    }
    Expr t{}; t.op = O_EXTRACT; t.w = w; t.lo = lo; t.a = a; t.val = (a->val >> lo) & mask(w);
    t.pm = (a->pm >> lo) & mask(w); t.uhi = t.pm;
    if ((a->uhi >> lo) <= mask(w)) { t.ulo = a->ulo >> lo; t.uhi = a->uhi >> lo; }
    return fin(t);
}
Expr* mk_concat(Expr* hi, Expr* lo)
{
    unsigned w = hi->w + lo->w;
    if (isc(hi) && isc(lo)) return mk_const(w, (hi->val << lo->w) | lo->val);
    if (isc(hi) && hi->val == 0) return mk_zext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w)
        return mk_extract(hi->a, hi->lo + hi->w - 1, lo->lo);
    // (extract x hi) ++ ((extract x lo) ++ y)
    if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->a->op == O_EXTRACT && hi->a == lo->a->a && hi->lo == lo->a->lo + lo->a->w)
        return mk_concat(mk_extract(hi->a, hi->lo + hi->w - 1, lo->a->lo), lo->b);
    // extract covering the low part of an expression whose high part is constant / sign handled elsewhere
    if (hi->op == O_CONCAT) // right-assoc: (a ++ b) ++ c => a ++ (b ++ c)
        return mk_concat(hi->a, mk_concat(hi->b, lo));
    if (hi->op == O_ZEXT) { return mk_zext(mk_concat(hi->a, lo), w); }
    if (isc(hi) && lo->op == O_CONCAT && isc(lo->a)) return mk_concat(mk_const(hi->w + lo->a->w, (hi->val << lo->a->w) | lo->a->val), lo->b);
    Expr t{}; t.op = O_CONCAT; t.w = w; t.a = hi; t.b = lo; t.val = (hi->val << lo->w) | lo->val;
    t.ulo = (hi->ulo << lo->w) + lo->ulo; t.uhi = (hi->uhi << lo->w) + lo->uhi; t.pm = (hi->pm << lo->w) | lo->pm;
    return fin(t);
}

// ---------------------------------------------------------------- floating point
static double asd(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 asu(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float asf(u64 v) { uint32_t x = v; float d; memcpy(&d, &x, 4); return d; }
static u64 asuf(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

static u64 evf(Op op, unsigned w, u64 a, u64 b)
{
    if (w == 64)
    {
        double x = asd(a), y = asd(b);
        switch (op)
        {
            case O_FADD: return asu(x + y); case O_FSUB: return asu(x - y); case O_FMUL: return asu(x * y); case O_FDIV: return asu(x / y);
            case O_FNEG: return a ^ (1ULL << 63); case O_FABS: return a & ~(1ULL << 63);
            case O_FRINT: return asu(nearbyint(x)); case O_FROUND: return asu(round(x)); case O_FFLOOR: return asu(floor(x)); case O_FCEIL: return asu(ceil(x)); case O_FTRUNC: return asu(trunc(x)); case O_FSQRT: return asu(sqrt(x));
            case O_FEQ: return x == y; case O_FLT: return x < y; case O_FLE: return x <= y; case O_ISNAN: return x != x;
            default: return 0;
        }
    }
    float x = asf(a), y = asf(b);
    switch (op)
    {
        case O_FADD: return asuf(x + y); case O_FSUB: return asuf(x - y); case O_FMUL: return asuf(x * y); case O_FDIV: return asuf(x / y);
        case O_FNEG: return a ^ (1ULL << 31); case O_FABS: return a & ~(1ULL << 31);
        case O_FRINT: return asuf(nearbyintf(x)); case O_FROUND: return asuf(roundf(x)); case O_FFLOOR: return asuf(floorf(x)); case O_FCEIL: return asuf(ceilf(x)); case O_FTRUNC: return asuf(truncf(x)); case O_FSQRT: return asuf(sqrtf(x));
        case O_FEQ: return x == y; case O_FLT: return x < y; case O_FLE: return x <= y; case O_ISNAN: return x != x;
        default: return 0;
    }
}

// A double built from one integer term x by operations with constants: it is a
// monotone function of x (IEEE operations with a constant operand and rounding
// are monotone), and equals A*x+B up to an absolute error eps.
struct FInfo
{
    bool mono = false; int dir = 1;
    bool affine = false; cpp_rational A, B; double eps = 0;
    Expr* root = nullptr; bool sgn = false; // root as a signed/unsigned integer
    i128 lo, hi;                            // range of root
};
static std::unordered_map<Expr*, FInfo> finfo;
static double up(double d) { return nextafter(d, INFINITY); }

static double feval(Expr* e, Expr* root, bool sgn, i128 x)
{
    switch (e->op)
    {
        case O_CONST: return asd(e->val);
        case O_SITOFP: return (double)(i64)x;
        case O_UITOFP: return (double)(u64)x;
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: return asd(evf(e->op, 64, asu(feval(e->a, root, sgn, x)), asu(feval(e->b, root, sgn, x))));
        default: return asd(evf(e->op, 64, asu(feval(e->a, root, sgn, x)), 0));
    }
}
static double maxabs(Expr* e, const FInfo& f)
{
    double a = fabs(feval(e, f.root, f.sgn, f.lo)), b = fabs(feval(e, f.root, f.sgn, f.hi));
    return a > b ? a : b;
}
static bool isint(const cpp_rational& r) { return denominator(r) == 1; }
static cpp_rational ratd(double d) { return cpp_rational(d); }

static Expr* ffin(Expr t, FInfo* fi)
{
    t.ulo = 0; t.uhi = mask(t.w); t.pm = mask(t.w);
    Expr* e = intern(t);
    if (fi && fi->mono && !finfo.count(e))
    {
        double a = feval(e, fi->root, fi->sgn, fi->lo), b = feval(e, fi->root, fi->sgn, fi->hi);
        if (std::isfinite(a) && std::isfinite(b))
        {
            if (fi->affine)
            {
                // account for the rounding error of this last operation
                if (t.op == O_FADD || t.op == O_FSUB || t.op == O_FMUL || t.op == O_FDIV)
                {
                    double m = maxabs(e, *fi);
                    bool exact = fi->eps == 0 && isint(fi->A) && isint(fi->B) && m < 9007199254740992.0;
                    if (!exact) fi->eps = up(fi->eps + up(m * 1.1102230246251565e-16 * 1.0000001 + 1e-300));
                }
            }
            finfo[e] = *fi;
        }
    }
    return e;
}
static FInfo* info(Expr* e) { auto i = finfo.find(e); return i == finfo.end() ? nullptr : &i->second; }

Expr* mk_itof(Op op, Expr* a, unsigned w)
{
    u64 v = w == 64 ? (op == O_SITOFP ? asu((double)sx(a->val, a->w)) : asu((double)a->val)) : (op == O_SITOFP ? asuf((float)sx(a->val, a->w)) : asuf((float)a->val));
    if (isc(a)) return mk_const(w, v);
    // canonical: strip extensions
    if (op == O_SITOFP && a->op == O_SEXT) return mk_itof(op, a->a, w);
    if (a->op == O_ZEXT && (op == O_UITOFP || a->w > a->a->w)) return mk_itof(O_UITOFP, a->a, w);
    if (op == O_SITOFP && a->uhi <= (mask(a->w) >> 1)) return mk_itof(O_UITOFP, a, w);
    Expr t{}; t.op = op; t.w = w; t.a = a; t.val = v;
    FInfo fi;
    if (w == 64)
    {
        fi.mono = true; fi.root = a; fi.sgn = op == O_SITOFP;
        if (fi.sgn) { i64 l, h; srange(a, l, h); fi.lo = l; fi.hi = h; } else { fi.lo = a->ulo; fi.hi = a->uhi; }
        fi.affine = true; fi.A = 1; fi.B = 0; fi.eps = 0;
        i128 lim = (i128)1 << 53;
        if (fi.hi > lim || fi.lo < -lim) fi.eps = 2048;
    }
    return ffin(t, &fi);
}

static Expr* f_exact_sum(Op op, Expr* a, Expr* b, u64 v);
Expr* mk_f2(Op op, Expr* a, Expr* b)
{
    unsigned w = a->w;
    u64 v = evf(op, w, a->val, b->val);
    if (isc(a) && isc(b)) return mk_const(w, v);
    if ((op == O_FADD || op == O_FMUL) && isc(a)) std::swap(a, b); // result is bit-identical for non-NaN operands
    if (w == 64 && isc(b) && (op == O_FMUL || op == O_FDIV) && asd(b->val) == 1.0) return a;
    if (w == 64 && (op == O_FADD || op == O_FSUB) && !isc(a) && !isc(b))
        if (Expr* r = f_exact_sum(op, a, b, v)) return r;
    Expr t{}; t.op = op; t.w = w; t.a = a; t.b = b; t.val = v;
    FInfo fi;
    if (w == 64)
    {
        FInfo* x = isc(b) ? info(a) : isc(a) ? info(b) : nullptr;
        double k = isc(b) ? asd(b->val) : isc(a) ? asd(a->val) : 0;
        if (x && std::isfinite(k))
        {
            fi = *x;
            bool ok = true;
            cpp_rational K = ratd(k);
            switch (op)
            {
                case O_FADD: fi.B += K; break;
                case O_FSUB: if (isc(b)) fi.B -= K; else { fi.dir = -fi.dir; fi.A = -fi.A; fi.B = K - fi.B; } break;
                case O_FMUL: if (k == 0) ok = false; else { if (k < 0) fi.dir = -fi.dir; fi.A *= K; fi.B *= K; fi.eps = fi.eps ? up(fi.eps * fabs(k)) : 0; } break;
                case O_FDIV: if (!isc(b) || k == 0) ok = false; else { if (k < 0) fi.dir = -fi.dir; fi.A /= K; fi.B /= K; fi.eps = fi.eps ? up(fi.eps / fabs(k)) : 0; } break;
                default: ok = false;
            }
            fi.mono = fi.mono && ok;
        }
    }
    return ffin(t, &fi);
}

// true when rounding A*x+B+-eps to the nearest integer gives exactly A*x+B
static bool round_exact(const FInfo& f) { return f.affine && isint(f.A) && isint(f.B) && f.eps < 0.499; }

static Expr* linear(const FInfo& f, unsigned w)
{
    // A*x+B as a w-bit term (caller checked the range)
    Expr* x = f.root;
    if (x->w < w) x = f.sgn ? mk_sext(x, w) : mk_zext(x, w);
    else if (x->w > w) x = mk_extract(x, w - 1, 0);
    cpp_int A = numerator(f.A), B = numerator(f.B);
    cpp_int m = cpp_int(1) << 64;
    auto tou = [&](cpp_int v) -> u64 { v %= m; if (v < 0) v += m; return (u64)v; };
    return mk_bin(O_ADD, mk_bin(O_MUL, x, mk_const(w, tou(A))), mk_const(w, tou(B)));
}

// sum or difference of two exact integers: exact, so again an integer converted
static Expr* f_exact_sum(Op op, Expr* a, Expr* b, u64 v)
{
    FInfo *xa = info(a), *xb = info(b);
    if (!xa || !xb || !xa->mono || !xb->mono || !xa->affine || !xb->affine || xa->eps != 0 || xb->eps != 0) return nullptr;
    if (!isint(xa->A) || !isint(xa->B) || !isint(xb->A) || !isint(xb->B)) return nullptr;
    if (maxabs(a, *xa) > 4e15 || maxabs(b, *xb) > 4e15) return nullptr;
    double al = feval(a, xa->root, xa->sgn, xa->lo), ah = feval(a, xa->root, xa->sgn, xa->hi);
    double bl = feval(b, xb->root, xb->sgn, xb->lo), bh = feval(b, xb->root, xb->sgn, xb->hi);
    if (al > ah) std::swap(al, ah);
    if (bl > bh) std::swap(bl, bh);
    Expr* sum = mk_bin(op == O_FADD ? O_ADD : O_SUB, linear(*xa, 64), linear(*xb, 64));
    ++g_fp_lemmas;
    if (isc(sum)) return mk_itof(O_SITOFP, sum, 64);
    Expr t{}; t.op = O_SITOFP; t.w = 64; t.a = sum; t.val = v;
    FInfo fi;
    fi.mono = true; fi.root = sum; fi.sgn = true; fi.affine = true; fi.A = 1; fi.B = 0; fi.eps = 0;
    if (op == O_FADD) { fi.lo = (i64)(al + bl); fi.hi = (i64)(ah + bh); }
    else { fi.lo = (i64)(al - bh); fi.hi = (i64)(ah - bl); }
    return ffin(t, &fi);
}

Expr* mk_f1(Op op, Expr* a)
{
    unsigned w = a->w;
    u64 v = evf(op, w, a->val, 0);
    if (isc(a)) return mk_const(w, v);
    if (op == O_FNEG && a->op == O_FNEG) return a->a;
    FInfo fi; FInfo* x = w == 64 ? info(a) : nullptr;
    if (x)
    {
        fi = *x;
        switch (op)
        {
            case O_FNEG: fi.dir = -fi.dir; fi.A = -fi.A; fi.B = -fi.B; break;
            case O_FABS:
            {
                double l = feval(a, fi.root, fi.sgn, fi.lo), h = feval(a, fi.root, fi.sgn, fi.hi);
                if (l >= 0 && h >= 0 && !std::signbit(l) && !std::signbit(h)) return a;
                if (l < 0 && h < 0) return mk_f1(O_FNEG, a);
                fi.mono = false; break;
            }
            case O_FRINT: case O_FROUND:
                if (round_exact(fi)) { fi.eps = 0; ++g_fp_lemmas; }
                else fi.affine = false;
                break;
            case O_FFLOOR: case O_FCEIL: case O_FTRUNC:
                if (fi.affine && fi.eps == 0 && isint(fi.A) && isint(fi.B)) { return a; }
                fi.affine = false;
                break;
            case O_FSQRT: fi.mono = false; break;
            default: fi.mono = false;
        }
    }
    Expr t{}; t.op = op; t.w = w; t.a = a; t.val = v;
    return ffin(t, &fi);
}

// { x in [lo,hi] : pred(x) } for a predicate that is monotone in x
template <typename F> static Expr* threshold(const FInfo& f, bool truelow, F pred)
{
    // truelow: pred holds for x below the threshold
    i128 lo = f.lo, hi = f.hi;
    // find smallest x with pred(x) != truelow
    i128 l = lo, h = hi + 1;
    while (l < h)
    {
        i128 m = l + (h - l) / 2;
        if (pred(m) == truelow) l = m + 1; else h = m;
    }
    ++g_fp_lemmas;
    // pred(x) == truelow  <=>  x < l
    Expr* below;
    if (l <= lo) below = mk_const(1, 0);
    else if (l > hi) below = mk_const(1, 1);
    else below = f.sgn ? mk_cmp(O_SLT, f.root, mk_const(f.root->w, (u64)(i64)l)) : mk_cmp(O_ULT, f.root, mk_const(f.root->w, (u64)l));
    return truelow ? below : mk_not(below);
}

// bounds of the difference (or sum) of two doubles that are affine in the same integer
static bool dbounds(Expr* p, Expr* q, bool sub, double& l, double& h)
{
    FInfo *x = info(p), *y = info(q);
    if (!x || !y || !x->affine || !y->affine || !x->mono || !y->mono || x->root != y->root || x->sgn != y->sgn) return false;
    double m = maxabs(p, *x) + maxabs(q, *y);
    if (!std::isfinite(m)) return false;
    cpp_rational A = x->A, B = x->B;
    if (sub) { A -= y->A; B -= y->B; } else { A += y->A; B += y->B; }
    double e = up(up(x->eps + y->eps) + up(m * 2.3e-16 + 1e-300));
    cpp_rational v0((i64)x->lo), v1((i64)x->hi);
    v0 *= A; v0 += B; v1 *= A; v1 += B;
    if (x->lo < -((i128)1 << 62) || x->hi > ((i128)1 << 62)) return false;
    double d0 = v0.convert_to<double>(), d1 = v1.convert_to<double>();
    double mx = fabs(d0) > fabs(d1) ? fabs(d0) : fabs(d1);
    e = up(e + up(mx * 4e-16 + 1e-300));
    l = (d0 < d1 ? d0 : d1) - e; h = (d0 < d1 ? d1 : d0) + e;
    return std::isfinite(l) && std::isfinite(h);
}
Expr* mk_fcmp(Op op, Expr* a, Expr* b)
{
    u64 v = evf(op, a->w, a->val, b->val);
    if (isc(a) && (isc(b) || op == O_ISNAN)) return mk_const(1, v);
    if (a->w == 64)
    {
        if (op == O_ISNAN) { FInfo* x = info(a); if (x && x->mono) return mk_const(1, 0); }
        else
        {
            FInfo *xa = info(a), *xb = info(b);
            // |x - rint(x)| is at most the error of x when x is an integer up to that
            if (op == O_FLT && isc(b) && a->op == O_FABS && a->a->op == O_FSUB && a->a->b->op == O_FRINT && a->a->b->a == a->a->a)
            {
                FInfo* y = info(a->a->a);
                if (y && round_exact(*y) && up(y->eps) < asd(b->val)) { ++g_fp_lemmas; return mk_const(1, 1); }
            }
            if (a == b && xa && xa->mono) return mk_const(1, op != O_FLT);
            {
                double l, h, k; bool known = false;
                if (isc(b) && !xa && (a->op == O_FSUB || a->op == O_FADD) && (k = asd(b->val)) == k && dbounds(a->a, a->b, a->op == O_FSUB, l, h))
                {
                    if (h < k && op != O_FEQ) { known = true; v = 1; }
                    else if (l > k || (h < k && op == O_FEQ)) { known = true; v = 0; }
                }
                else if (isc(a) && !xb && (b->op == O_FSUB || b->op == O_FADD) && (k = asd(a->val)) == k && dbounds(b->a, b->b, b->op == O_FSUB, l, h))
                {
                    if (l > k && op != O_FEQ) { known = true; v = 1; }
                    else if (h < k || (l > k && op == O_FEQ)) { known = true; v = 0; }
                }
                else if (xa && xb && dbounds(a, b, true, l, h))
                {
                    if (h < 0 && op != O_FEQ) { known = true; v = 1; }
                    else if (l > 0 || (h < 0 && op == O_FEQ)) { known = true; v = 0; }
                }
                if (known) { ++g_fp_lemmas; return mk_const(1, v); }
            }
            if (xa && isc(b) && xa->mono)
            {
                double k = asd(b->val);
                if (k != k) return mk_const(1, 0);
                FInfo f = *xa;
                auto lt = [&](bool strict) { return threshold(f, f.dir > 0, [&](i128 x) { double d = feval(a, f.root, f.sgn, x); return strict ? d < k : d <= k; }); };
                if (op == O_FLT) return lt(true);
                if (op == O_FLE) return lt(false);
                return mk_bin(O_AND, lt(false), mk_not(lt(true)));
            }
            if (xb && isc(a) && xb->mono)
            {
                double k = asd(a->val);
                if (k != k) return mk_const(1, 0);
                FInfo f = *xb;
                // k < d, k <= d
                auto gt = [&](bool strict) { return threshold(f, f.dir < 0, [&](i128 x) { double d = feval(b, f.root, f.sgn, x); return strict ? k < d : k <= d; }); };
                if (op == O_FLT) return gt(true);
                if (op == O_FLE) return gt(false);
                return mk_bin(O_AND, gt(false), mk_not(gt(true)));
            }
            // both exact integers: compare as 64-bit integers
            if (xa && xb && xa->affine && xb->affine && xa->eps == 0 && xb->eps == 0 && isint(xa->A) && isint(xa->B) && isint(xb->A) && isint(xb->B) && maxabs(a, *xa) < 9e15 && maxabs(b, *xb) < 9e15)
            {
                Expr *x = linear(*xa, 64), *y = linear(*xb, 64);
                ++g_fp_lemmas;
                return mk_cmp(op == O_FEQ ? O_EQ : op == O_FLT ? O_SLT : O_SLE, x, y);
            }
        }
    }
    Expr t{}; t.op = op; t.w = 1; t.a = a; t.b = op == O_ISNAN ? nullptr : b; t.val = v; t.uhi = 1; t.pm = 1;
    return fin(t);
}

Expr* mk_ftoi(Op op, Expr* a, unsigned w)
{
    double d = a->w == 64 ? asd(a->val) : asf(a->val);
    u64 v = op == O_FPTOSI ? (u64)(i64)d : (d < 9.2e18 ? (u64)(i64)d : (u64)d);
    if (isc(a)) return mk_const(w, v);
    FInfo* x = a->w == 64 ? info(a) : nullptr;
    if (x && x->affine && x->eps == 0 && isint(x->A) && isint(x->B))
    {
        double l = feval(a, x->root, x->sgn, x->lo), h = feval(a, x->root, x->sgn, x->hi);
        if (l > h) std::swap(l, h);
        double tl = op == O_FPTOSI ? -ldexp(1.0, w - 1) : 0, th = op == O_FPTOSI ? ldexp(1.0, w - 1) - 1 : ldexp(1.0, w) - 1;
        if (l >= tl && h <= th) { ++g_fp_lemmas; return linear(*x, w); }
        // exact under the side condition that the value fits the type
        if (l >= -9e15 && h <= 9e15)
        {
            ++g_fp_lemmas;
            Expr* lin = linear(*x, 64);
            if (op == O_FPTOSI) g_side = mk_bin(O_AND, mk_cmp(O_SLE, mk_const(64, (u64)(i64)tl), lin), mk_cmp(O_SLE, lin, mk_const(64, (u64)(i64)th)));
            else g_side = mk_bin(O_AND, mk_cmp(O_SLE, mk_const(64, 0), lin), mk_cmp(O_SLE, lin, mk_const(64, w >= 63 ? 9000000000000000ULL : (u64)th)));
            return mk_extract(lin, w - 1, 0);
        }
    }
    Expr t{}; t.op = op; t.w = w; t.a = a; t.val = v & mask(w); t.uhi = mask(w); t.pm = mask(w);
    return intern(t);
}
Expr* mk_fcvt(Op op, Expr* a, unsigned w)
{
    u64 v = op == O_FPEXT ? asu((double)asf(a->val)) : asuf((float)asd(a->val));
    if (isc(a)) return mk_const(w, v);
    if (op == O_FPTRUNC && a->op == O_FPEXT) return a->a;
    Expr t{}; t.op = op; t.w = w; t.a = a; t.val = v;
    return ffin(t, nullptr);
}
