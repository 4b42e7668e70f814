// Runtime of the symbolic execution engine: shadow state, path trace, SMT
// queries, and the coordinator that explores every path of a harness.
#include "expr.h"
#include "ops.h"
#include "vs.h"
#include <z3++.h>
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

extern "C" const char* __asan_locate_address(void* addr, char* name, size_t name_size, void** region_address, size_t* region_size) __attribute__((weak));
extern "C" void __asan_set_death_callback(void (*)()) __attribute__((weak));

typedef std::map<std::string, u64> Input;

struct Options
{
    double time_limit = 60; unsigned jobs = 8; unsigned conc_limit = 600; unsigned qtimeout_ms = 10000; double run_cpu = 20;
    bool thorough = false; unsigned max_paths = 1000000; unsigned seed = 1; bool verbose = false; unsigned max_viol = 3; bool fpconc = false;
    std::string outdir;
} opt;

// ---------------------------------------------------------------- path state
enum Kind : uint8_t { K_BRANCH, K_CONC, K_ASSUME, K_SWITCH, K_ASSERT, K_BOUND };
struct Ent
{
    Kind kind; Expr* cond; // holds on this path
    const char* site; Expr* e; u64 v; // K_CONC / K_SWITCH: term and its value
    const u64* cases; int ncases;
    u64 hash; u64 dir;
};
static bool active = false;
static std::vector<Ent> trace;
static std::unordered_set<Expr*> known;
static u64 rolling = 1469598103934665603ULL;
static Input* input = nullptr;
static unsigned bound = 0; static u64 bound_hash = 0; static bool diverged = false;
struct VarInfo { std::string name; unsigned w; u64 val, lo, hi; Expr* e; };
static std::vector<VarInfo> vars;
static std::map<std::string, unsigned> namecount;
unsigned g_nvars = 0;
static std::map<std::string, u64> lost;      // symbolic data handed to code that is not encoded
static std::map<std::string, u64> concs;     // concretisation sites
static std::vector<std::string> notes;
static std::set<std::string> reached;
static u64 mismatches = 0; static std::string mismatch_what;
static u64 symops = 0;

static inline u64 hmix(u64 h, u64 v) { h ^= v; h *= 1099511628211ULL; h ^= h >> 31; return h; }

static void finish_path(char status, const char* label) __attribute__((noreturn));

static void known_add(Expr* c)
{
    known.insert(c);
    if (c->w == 1 && c->op == O_AND) { known_add(c->a); known_add(c->b); }
}
static bool is_known(Expr* c)
{
    if (c->op == O_CONST) return true;
    if (known.count(c)) return true;
    if (c->w == 1 && c->op == O_AND) return is_known(c->a) && is_known(c->b);
    if (c->w == 1 && c->op == O_OR) return (c->a->val && is_known(c->a)) || (c->b->val && is_known(c->b));
    return false;
}
static void push(Kind k, Expr* cond, const char* site, Expr* e = nullptr, u64 v = 0, const u64* cases = nullptr, int ncases = 0, u64 dir = 0)
{
    if (k != K_ASSERT || true) if (is_known(cond)) return;
    u64 sh = 0; for (const char* p = site; *p; ++p) sh = sh * 131 + (unsigned char)*p;
    rolling = hmix(hmix(hmix(rolling, sh), k), dir);
    trace.push_back({k, cond, site, e, v, cases, ncases, rolling, dir});
    known_add(cond);
    if (trace.size() == bound && bound_hash && rolling != bound_hash) diverged = true;
    if (trace.size() == bound && diverged && opt.verbose) { for (size_t i = trace.size() > 6 ? trace.size() - 6 : 0; i < trace.size(); ++i) fprintf(stderr, "DIV %zu kind %d dir %llu %s\n", i, trace[i].kind, (unsigned long long)trace[i].dir, trace[i].site); }
    if (trace.size() > 60000) finish_path('L', "trace too long");
}
static bool quiet = false; // inside engine helpers

// ---------------------------------------------------------------- shadow memory
struct Page { Expr* b[4096]; };
static std::unordered_map<u64, Page*> pages;
static struct { u64 k; Page* p; } pcache[64];
static inline Page* getpage(u64 k)
{
    auto& c = pcache[k & 63];
    if (c.k == k) return c.p;
    auto it = pages.find(k);
    c.k = k; c.p = it == pages.end() ? nullptr : it->second;
    return c.p;
}
static Page* mkpage(u64 k)
{
    Page* p = getpage(k);
    if (p) return p;
    p = (Page*)calloc(1, sizeof(Page));
    pages[k] = p; pcache[k & 63].k = k; pcache[k & 63].p = p;
    return p;
}
static inline Expr* getb(u64 a) { Page* p = getpage(a >> 12); return p ? p->b[a & 4095] : nullptr; }
static inline void setb(u64 a, Expr* e)
{
    if (e && e->op == O_CONST) e = nullptr;
    Page* p = e ? mkpage(a >> 12) : getpage(a >> 12);
    if (p) p->b[a & 4095] = e;
}
static void clear_range(u64 a, u64 n)
{
    if (pages.empty()) return;
    u64 end = a + n;
    while (a < end)
    {
        u64 pe = (a | 4095) + 1; if (pe > end) pe = end;
        Page* p = getpage(a >> 12);
        if (p) memset(&p->b[a & 4095], 0, (pe - a) * sizeof(Expr*));
        a = pe;
    }
}
// expression for n bytes at address a whose current value is val (little endian)
static Expr* load_expr(u64 a, unsigned n, u64 val, unsigned w)
{
    bool any = false;
    Expr* bs[8];
    for (unsigned i = 0; i < n; ++i)
    {
        bs[i] = getb(a + i);
        if (bs[i])
        {
            if (bs[i]->val != ((val >> (8 * i)) & 255)) { setb(a + i, nullptr); bs[i] = nullptr; ++lost["stale-shadow"]; }
            else any = true;
        }
    }
    if (!any) return nullptr;
    Expr* r = nullptr;
    for (unsigned i = 0; i < n; ++i)
    {
        Expr* b = bs[i] ? bs[i] : mk_const(8, val >> (8 * i));
        r = r ? mk_concat(b, r) : b;
    }
    if (w < r->w) r = mk_extract(r, w - 1, 0);
    if (r->op == O_CONST) return nullptr;
    return r;
}
static Expr* ret(Expr* e, u64 r)
{
    ++symops;
    if (e->op == O_CONST) { if (e->val != (r & mask(e->w))) { ++mismatches; } return nullptr; }
    if (e->val != (r & mask(e->w)))
    {
        ++mismatches;
        if (mismatch_what.empty()) { char b[200]; snprintf(b, 200, "op %d w %d: term %llx machine %llx", e->op, e->w, (unsigned long long)e->val, (unsigned long long)r); mismatch_what = b; }
        return nullptr;
    }
    return e;
}
static inline Expr* K(unsigned w, Expr* s, u64 v) { return s ? s : mk_const(w, v); }
// reject a shadow that does not describe this value
static inline Expr* chk(Expr* s, u64 v, unsigned w) { if (s && (s->w != w || s->val != (v & mask(w)))) return nullptr; return s; }

static Expr* args_[64]; static unsigned nargs = 0; static unsigned argsmax = 0;
static Expr* rets_[32]; static unsigned nrets = 0;
static Expr* saved_args[64]; static unsigned saved_n = 0; static u64 args_fpm = 0, saved_fpm = 0;

// the object that contains [p, p+n): false if there is none. ASan's own lookup
// may answer with the global that follows at less than 64 bytes.
static bool find_object(u64 p, u64 n, u64& lo, u64& size)
{
    if (!__asan_locate_address) return false;
    bool q = quiet; quiet = true;
    bool found = false;
    for (int i = 0; i <= 8 && !found; ++i)
    {
        void* ra = nullptr; size_t rs = 0; char nm[64];
        const char* k = __asan_locate_address((void*)(p - 8 * (u64)i), nm, sizeof nm, &ra, &rs);
        if (ra && rs && p >= (u64)ra && p + n <= (u64)ra + rs) { lo = (u64)ra; size = rs; found = true; }
        else if (!k || strcmp(k, "global")) break;
    }
    quiet = q;
    return found;
}
static void conc(const char* site, Expr* s, u64 v, unsigned w, const char* why)
{
    if (!s || s->op == O_CONST) return;
    if (s->val != (v & mask(s->w))) { ++lost["stale-conc"]; return; }
    if (s->w == 64 && v > 0x100000)
    {
        // addresses change from run to run: enumerate the offset in the object
        u64 ra, rs;
        if (find_object(v, 0, ra, rs))
        {
            // pointers to different objects are told apart by the condition that chose them
            for (Expr* off = nullptr;;)
            {
                if (!off && s->op == O_ADD && s->b->op == O_CONST && s->a->op == O_ITE) { off = s->b; s = s->a; }
                else if (!off && s->op == O_ADD && s->a->op == O_CONST && s->b->op == O_ITE) { off = s->a; s = s->b; }
                if (s->op == O_ITE)
                {
                    Expr *yes = s->a->val ? s->b : s->c, *no = s->a->val ? s->c : s->b;
                    u64 other = no->val + (off ? off->val : 0);
                    if (other < ra || other >= ra + rs) { push(K_BRANCH, s->a->val ? s->a : mk_not(s->a), site, nullptr, 0, nullptr, 0, s->a->val); s = yes; if (s->op == O_CONST) return; continue; }
                }
                if (off) s = mk_bin(O_ADD, s, off);
                break;
            }
            s = mk_bin(O_SUB, s, mk_const(64, ra)); v -= ra; if (s->op == O_CONST) return; }
    }
    Expr* c = mk_cmp(O_EQ, s, mk_const(s->w, v));
    if (is_known(c)) return;
    ++concs[std::string(why) + " " + site];
    push(K_CONC, c, site, s, v & mask(s->w), nullptr, 0, v & mask(s->w));
}

extern "C" {

Expr* __vs_arg(int i, u64 v, int w)
{
    if (!active || !nargs || (unsigned)i >= argsmax || i >= 64) return nullptr;
    return chk(args_[i], v, w);
}
void __vs_args_done()
{
    if (!active) return;
    if (nargs) { saved_fpm = args_fpm; saved_n = nargs < 64 ? nargs : 64; memcpy(saved_args, args_, sizeof(Expr*) * (argsmax < 64 ? argsmax : 64)); for (unsigned i = argsmax; i < 64 && i < saved_n; ++i) saved_args[i] = nullptr; }
    else saved_n = 0;
    if (argsmax) memset(args_, 0, sizeof(Expr*) * argsmax);
    argsmax = 0; nargs = 0;
}
void __vs_push_arg(int i, Expr* s)
{
    if (!active) return;
    if (i >= 64) return;
    args_[i] = s;
    if (s && (unsigned)i + 1 > argsmax) argsmax = i + 1;
}
void __vs_set_nargs(int n, u64 fpm) { if (active) { nargs = n ? n : 1; args_fpm = fpm; } }
void __vs_clear_ret() { if (nrets) { memset(rets_, 0, sizeof(Expr*) * nrets); nrets = 0; } }
void __vs_set_ret(int i, Expr* s) { if (i == 0 && nrets) __vs_clear_ret(); if (!s || i >= 32) return; rets_[i] = s; if (nrets < (unsigned)i + 1) nrets = i + 1; }
Expr* __vs_ret(int i, u64 v, int w)
{
    if (!active || (unsigned)i >= nrets) return nullptr;
    return chk(rets_[i], v, w);
}

static const Op BINOPS[] = {O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR};
Expr* __vs_bin(int op, int w, Expr* sa, Expr* sb, u64 a, u64 b, u64 r)
{
    if (!sa && !sb) return nullptr;
    sa = chk(sa, a, w); sb = chk(sb, b, w); if (!sa && !sb) return nullptr;
    Expr *x = K(w, sa, a), *y = K(w, sb, b);
    if ((op == VS_UDIV || op == VS_SDIV || op == VS_UREM || op == VS_SREM) && sb)
        push(K_BOUND, mk_not(mk_cmp(O_EQ, y, mk_const(w, 0))), "div-by-zero");
    if (op == VS_SHL || op == VS_LSHR || op == VS_ASHR)
    {
        if (y->val >= (u64)w) { if (sb) push(K_BOUND, mk_not(mk_cmp(O_ULT, y, mk_const(w, w))), "shift-amount"); return nullptr; } // undefined shift: machine-specific value, kept concrete
        if (sb) push(K_BOUND, mk_cmp(O_ULT, y, mk_const(w, w)), "shift-amount");
    }
    return ret(mk_bin(BINOPS[op], x, y), r);
}
Expr* __vs_icmp(int pred, int w, Expr* sa, Expr* sb, u64 a, u64 b, u64 r)
{
    if (!sa && !sb) return nullptr;
    sa = chk(sa, a, w); sb = chk(sb, b, w); if (!sa && !sb) return nullptr;
    Expr *x = K(w, sa, a), *y = K(w, sb, b), *e;
    switch (pred) // llvm::CmpInst::Predicate
    {
        case 32: e = mk_cmp(O_EQ, x, y); break;
        case 33: e = mk_not(mk_cmp(O_EQ, x, y)); break;
        case 34: e = mk_cmp(O_ULT, y, x); break;
        case 35: e = mk_cmp(O_ULE, y, x); break;
        case 36: e = mk_cmp(O_ULT, x, y); break;
        case 37: e = mk_cmp(O_ULE, x, y); break;
        case 38: e = mk_cmp(O_SLT, y, x); break;
        case 39: e = mk_cmp(O_SLE, y, x); break;
        case 40: e = mk_cmp(O_SLT, x, y); break;
        default: e = mk_cmp(O_SLE, x, y); break;
    }
    return ret(e, r);
}
Expr* __vs_fcmp(int pred, int w, Expr* sa, Expr* sb, u64 a, u64 b, u64 r)
{
    if (!sa && !sb) return nullptr;
    sa = chk(sa, a, w); sb = chk(sb, b, w); if (!sa && !sb) return nullptr;
    Expr *x = K(w, sa, a), *y = K(w, sb, b), *e;
    auto uno = [&] { return mk_bin(O_OR, mk_fcmp(O_ISNAN, x, x), mk_fcmp(O_ISNAN, y, y)); };
    bool unord = pred & 8; // UNO bit
    int p = pred & 7;
    if (pred == 0) return nullptr;
    if (pred == 15) return nullptr;
    switch (p)
    {
        case 1: e = mk_fcmp(O_FEQ, x, y); break;
        case 2: e = mk_fcmp(O_FLT, y, x); break;
        case 3: e = mk_fcmp(O_FLE, y, x); break;
        case 4: e = mk_fcmp(O_FLT, x, y); break;
        case 5: e = mk_fcmp(O_FLE, x, y); break;
        case 6: e = mk_bin(O_OR, mk_fcmp(O_FLT, x, y), mk_fcmp(O_FLT, y, x)); break;
        case 7: e = mk_not(uno()); break;
        default: e = mk_const(1, 0); break;
    }
    if (unord) e = mk_bin(O_OR, e, uno());
    return ret(e, r);
}
Expr* __vs_select(int w, Expr* sc, Expr* st, Expr* sf, u64 c, u64 t, u64 f)
{
    if (!sc && !st && !sf) return nullptr;
    sc = chk(sc, c & 1, 1);
    Expr *xt = chk(st, t, w), *xf = chk(sf, f, w);
    if (!sc) return (c & 1) ? xt : xf;
    if ((st && !xt) || (sf && !xf)) { ++lost["select-shadow"]; }
    ++symops;
    Expr* e = mk_ite(sc, K(w, xt, t), K(w, xf, f));
    return e->op == O_CONST ? nullptr : e;
}
static Expr* conc_fp(Expr* x, const char* why) { conc("fp", x, x->val, x->w, why); return nullptr; }
static const char* cursite = "fp";
Expr* __vs_cast(int op, int wf, int wt, Expr* s, u64 a, u64 r)
{
    if (!s) return nullptr;
    s = chk(s, a, wf); if (!s) return nullptr;
    switch (op)
    {
        case VSC_ZEXT: return ret(mk_zext(s, wt), r);
        case VSC_SEXT: return ret(mk_sext(s, wt), r);
        case VSC_TRUNC: return ret(mk_extract(s, wt - 1, 0), r);
        case VSC_BITCAST: return s;
        case VSC_SITOFP: return ret(mk_itof(O_SITOFP, s, wt), r);
        case VSC_UITOFP: return ret(mk_itof(O_UITOFP, s, wt), r);
        case VSC_FPTOSI: case VSC_FPTOUI:
        {
            g_side = nullptr;
            Expr* e = mk_ftoi(op == VSC_FPTOSI ? O_FPTOSI : O_FPTOUI, s, wt);
            Expr* side = g_side; g_side = nullptr;
            if (side && side->op != O_CONST)
            {
                if (side->val) push(K_BOUND, side, "fp-to-int-range");
                else { push(K_BOUND, mk_not(side), "fp-to-int-range"); conc(cursite, s, a, wf, "fptoi-range"); return nullptr; }
            }
            if (e->op == O_FPTOSI || e->op == O_FPTOUI)
            {
                // out of range: x86 result, kept concrete
                if (e->val != (r & mask(wt))) { conc(cursite, s, a, wf, "fptoi"); return nullptr; }
            }
            return ret(e, r);
        }
        case VSC_FPEXT: return ret(mk_fcvt(O_FPEXT, s, wt), r);
        case VSC_FPTRUNC: return ret(mk_fcvt(O_FPTRUNC, s, wt), r);
    }
    return nullptr;
}
Expr* __vs_gep(Expr* sb, Expr* si, u64 base, u64 idx, u64 scale)
{
    if (!sb && !si) return nullptr;
    sb = chk(sb, base, 64); si = chk(si, idx, 64); if (!sb && !si) return nullptr;
    Expr* e = mk_bin(O_ADD, K(64, sb, base), mk_bin(O_MUL, K(64, si, idx), mk_const(64, scale)));
    return ret(e, base + idx * scale);
}
static Expr* table_tree(Expr* off, const std::vector<std::pair<u64, Expr*>>& t, size_t l, size_t h)
{
    bool same = true;
    for (size_t i = l + 1; i < h; ++i) if (t[i].second != t[l].second) { same = false; break; }
    if (same) return t[l].second;
    size_t m = (l + h) / 2;
    return mk_ite(mk_cmp(O_ULT, off, mk_const(64, t[m].first)), table_tree(off, t, l, m), table_tree(off, t, m, h));
}
Expr* __vs_load(void* p, int n, int w, Expr* sp, u64 val, int isfp)
{
    if (!active) return nullptr;
    sp = chk(sp, (u64)p, 64);
    if (sp && !is_known(mk_cmp(O_EQ, sp, mk_const(64, (u64)p))))
    {
        u64 lo = 0, rs = 0;
        if (!isfp && find_object((u64)p, n, lo, rs))
        {
            Expr* off = mk_bin(O_SUB, sp, mk_const(64, lo));
            u64 maxoff = rs - n;
            push(K_BOUND, mk_cmp(O_ULE, off, mk_const(64, maxoff)), "load-in-bounds");
            u64 g = 1; { u64 pm = off->pm; if (pm) g = 1ULL << __builtin_ctzll(pm); if (g > 4096) g = 4096; }
            u64 omax = off->uhi < maxoff ? off->uhi : maxoff, omin = off->ulo;
            if ((omax - omin) / g < 2048)
            {
                std::vector<std::pair<u64, Expr*>> t;
                for (u64 o = (omin + g - 1) / g * g; o <= omax; o += g)
                {
                    u64 v = 0; memcpy(&v, (void*)(lo + o), n);
                    Expr* e = load_expr(lo + o, n, v, w);
                    t.push_back({o, e ? e : mk_const(w, v)});
                }
                if (!t.empty()) return ret(table_tree(off, t, 0, t.size()), val);
            }
        }
        conc("load-address", sp, (u64)p, 64, "address");
    }
    if (pages.empty()) return nullptr;
    return load_expr((u64)p, n, val, w);
}
void __vs_load_vec(void* p, int n, Expr* sp, const char* site)
{
    if (!active) return;
    conc(site, sp, (u64)p, 64, "vec-address");
    for (int i = 0; i < n; ++i) { Expr* b = getb((u64)p + i); if (b && b->val == ((unsigned char*)p)[i]) conc(site, b, b->val, 8, "vec-load"); }
}
void __vs_store(void* p, int n, Expr* sp, Expr* sv, u64 val, int w)
{
    if (!active) return;
    sp = chk(sp, (u64)p, 64);
    if (sp) conc("store-address", sp, (u64)p, 64, "store-address");
    sv = chk(sv, val, w);
    if (!sv) { clear_range((u64)p, n); return; }
    if (sv->w < (unsigned)n * 8) sv = mk_zext(sv, n * 8);
    for (int i = 0; i < n; ++i) setb((u64)p + i, mk_extract(sv, 8 * i + 7, 8 * i));
}
void __vs_store_c(void* p, u64 n) { if (active && !pages.empty()) clear_range((u64)p, n); }
void __vs_alloc(void* p, u64 n) { if (active && !pages.empty() && p) clear_range((u64)p, n); }
void __vs_branch(const char* site, Expr* s, u64 c)
{
    if (!s) return;
    s = chk(s, c & 1, 1); if (!s) return;
    push(K_BRANCH, (c & 1) ? s : mk_not(s), site, nullptr, 0, nullptr, 0, c & 1);
}
void __vs_switch(const char* site, Expr* s, u64 v, int w, int n, const u64* cases)
{
    if (!s) return;
    s = chk(s, v, w); if (!s) return;
    // successor taken
    u64 succ = 0; for (int i = 0; i < n; ++i) if (cases[2 * i] == v) succ = cases[2 * i + 1];
    Expr* c = mk_const(1, 0);
    if (succ)
    { for (int i = 0; i < n; ++i) if (cases[2 * i + 1] == succ) c = mk_bin(O_OR, c, mk_cmp(O_EQ, s, mk_const(w, cases[2 * i]))); }
    else
    {
        c = mk_const(1, 1);
        for (int i = 0; i < n; ++i) if (cases[2 * i + 1] != 0) c = mk_bin(O_AND, c, mk_not(mk_cmp(O_EQ, s, mk_const(w, cases[2 * i]))));
    }
    push(K_SWITCH, c, site, s, succ, cases, n, succ);
}
void __vs_conc(const char* site, Expr* s, u64 v, int w, const char* why) { if (s) { s = chk(s, v, w); if (s) conc(site, s, v, w, why); } }
void __vs_memcpy(void* d, void* s, u64 n, Expr* sn, const char* site, void*)
{
    if (!active) return;
    sn = chk(sn, n, 64);
    if (sn) conc(site, sn, n, 64, "memcpy-size");
    if (pages.empty() || n == 0) return;
    // memmove semantics
    u64 D = (u64)d, S = (u64)s;
    if (D == S) return;
    if (n > (1 << 24)) return;
    bool fwd = D < S;
    for (u64 i = 0; i < n; ++i)
    {
        u64 k = fwd ? i : n - 1 - i;
        Expr* e = getb(S + k);
        if (e && e->val != ((unsigned char*)s)[k]) { e = nullptr; setb(S + k, nullptr); ++lost["stale-shadow"]; }
        setb(D + k, e);
    }
}
void __vs_memset(void* d, Expr* sv, u64 v, u64 n, Expr* sn, const char* site)
{
    if (!active) return;
    sn = chk(sn, n, 64);
    if (sn) conc(site, sn, n, 64, "memset-size");
    if (sv && sv->op != O_CONST) { sv = sv->w > 8 ? mk_extract(sv, 7, 0) : sv; for (u64 i = 0; i < n; ++i) setb((u64)d + i, sv); }
    else clear_range((u64)d, n);
}
void __vs_ext(const char* site, const char* fn, Expr* s, u64 v, int w)
{
    if (!s) return;
    s = chk(s, v, w); if (!s) return;
    conc(site, s, v, w, fn);
}
void __vs_ext_ptr(const char* site, const char* fn, void* p)
{
    if (!active || pages.empty()) return;
    // symbolic content handed to code outside the encoding?
    for (int i = 0; i < 32; ++i) { if ((((u64)p + i) & 4095) == 0 && i) break; if (getb((u64)p + i)) { ++lost[std::string(fn) + " <- " + site]; return; } }
}
Expr* __vs_ovf(int op, int w, Expr* sa, Expr* sb, u64 a, u64 b, u64 r)
{
    if (!sa && !sb) return nullptr;
    sa = chk(sa, a, w); sb = chk(sb, b, w); if (!sa && !sb) return nullptr;
    Expr *x = K(w, sa, a), *y = K(w, sb, b), *e;
    switch (op)
    {
        case VSO_UADD: e = mk_cmp(O_ULT, mk_bin(O_ADD, x, y), x); break;
        case VSO_USUB: e = mk_cmp(O_ULT, x, y); break;
        case VSO_SADD: case VSO_SSUB:
        {
            if (w < 64) { Expr* s = mk_bin(op == VSO_SADD ? O_ADD : O_SUB, mk_sext(x, w + 1), mk_sext(y, w + 1)); e = mk_not(mk_cmp(O_EQ, mk_extract(s, w, w), mk_extract(s, w - 1, w - 1))); }
            else
            {
                Expr* s = mk_bin(op == VSO_SADD ? O_ADD : O_SUB, x, y);
                Expr* sx_ = mk_extract(x, 63, 63); Expr* sy = mk_extract(y, 63, 63); Expr* ss = mk_extract(s, 63, 63);
                if (op == VSO_SSUB) sy = mk_not(sy);
                e = mk_bin(O_AND, mk_cmp(O_EQ, sx_, sy), mk_not(mk_cmp(O_EQ, sx_, ss)));
            }
            break;
        }
        case VSO_UMUL:
            if (w <= 32) { Expr* m = mk_bin(O_MUL, mk_zext(x, 2 * w), mk_zext(y, 2 * w)); e = mk_not(mk_cmp(O_EQ, mk_extract(m, 2 * w - 1, w), mk_const(w, 0))); }
            else
            {
                if (x->op == O_CONST) std::swap(x, y);
                if (y->op != O_CONST) { conc("umul", y, y->val, w, "umul.overflow"); y = mk_const(w, y->val); }
                e = y->val ? mk_cmp(O_ULT, mk_const(w, mask(w) / y->val), x) : mk_const(1, 0);
            }
            break;
        default: // SMUL
            if (w <= 32) { Expr* m = mk_bin(O_MUL, mk_sext(x, 2 * w), mk_sext(y, 2 * w)); e = mk_not(mk_cmp(O_EQ, m, mk_sext(mk_extract(m, w - 1, 0), 2 * w))); }
            else { conc("smul", x, x->val, w, "smul.overflow"); conc("smul", y, y->val, w, "smul.overflow"); return nullptr; }
            break;
    }
    return ret(e, r);
}
static Expr* popcnt(Expr* x, unsigned w) { Expr* s = mk_const(w, 0); for (unsigned i = 0; i < w; ++i) s = mk_bin(O_ADD, s, mk_zext(mk_extract(x, i, i), w)); return s; }
Expr* __vs_intr(int op, int w, Expr* sa, Expr* sb, Expr* sc, u64 a, u64 b, u64 c, u64 r)
{
    if (!sa && !sb && !sc) return nullptr;
    sa = chk(sa, a, w);
    if (op == VSI_FPCLASS)
    {
        if (!sa) return nullptr;
        if (w != 64) { conc("fpclass", sa, a, w, "fpclass"); return nullptr; }
        Expr* sg = mk_extract(sa, 63, 63); Expr* ex = mk_extract(sa, 62, 52); Expr* mn = mk_extract(sa, 51, 0);
        Expr* ones = mk_cmp(O_EQ, ex, mk_const(11, 0x7ff)); Expr* zex = mk_cmp(O_EQ, ex, mk_const(11, 0)); Expr* zm = mk_cmp(O_EQ, mn, mk_const(52, 0));
        Expr* q = mk_extract(mn, 51, 51);
        Expr* norm = mk_bin(O_AND, mk_not(ones), mk_not(zex));
        Expr* cls[10] = {mk_bin(O_AND, mk_bin(O_AND, ones, mk_not(zm)), mk_not(q)), mk_bin(O_AND, ones, q),
            mk_bin(O_AND, mk_bin(O_AND, ones, zm), sg), mk_bin(O_AND, norm, sg), mk_bin(O_AND, mk_bin(O_AND, zex, mk_not(zm)), sg), mk_bin(O_AND, mk_bin(O_AND, zex, zm), sg),
            mk_bin(O_AND, mk_bin(O_AND, zex, zm), mk_not(sg)), mk_bin(O_AND, mk_bin(O_AND, zex, mk_not(zm)), mk_not(sg)), mk_bin(O_AND, norm, mk_not(sg)), mk_bin(O_AND, mk_bin(O_AND, ones, zm), mk_not(sg))};
        Expr* e = mk_const(1, 0);
        for (int i = 0; i < 10; ++i) if (b & (1 << i)) e = mk_bin(O_OR, e, cls[i]);
        return ret(e, r);
    }
    sb = chk(sb, b, w); sc = chk(sc, c, w);
    if (!sa && !sb && !sc) return nullptr;
    Expr *x = K(w, sa, a), *y = K(w, sb, b), *e = nullptr;
    switch (op)
    {
        case VSI_SMIN: e = mk_ite(mk_cmp(O_SLT, x, y), x, y); break;
        case VSI_SMAX: e = mk_ite(mk_cmp(O_SLT, x, y), y, x); break;
        case VSI_UMIN: e = mk_ite(mk_cmp(O_ULT, x, y), x, y); break;
        case VSI_UMAX: e = mk_ite(mk_cmp(O_ULT, x, y), y, x); break;
        case VSI_ABS: e = mk_ite(mk_cmp(O_SLT, x, mk_const(w, 0)), mk_neg(x), x); break;
        case VSI_BSWAP: { e = nullptr; for (int i = 0; i < w; i += 8) { Expr* bt = mk_extract(x, i + 7, i); e = e ? mk_concat(e, bt) : bt; } break; }
        case VSI_BITREV: { e = nullptr; for (int i = 0; i < w; ++i) { Expr* bt = mk_extract(x, i, i); e = e ? mk_concat(e, bt) : bt; } break; }
        case VSI_CTPOP: e = popcnt(x, w); break;
        case VSI_CTLZ: { e = mk_const(w, w); for (int i = 0; i < w; ++i) e = mk_ite(mk_extract(x, i, i), mk_const(w, w - 1 - i), e); break; }
        case VSI_CTTZ: { e = mk_const(w, w); for (int i = w - 1; i >= 0; --i) e = mk_ite(mk_extract(x, i, i), mk_const(w, i), e); break; }
        case VSI_USUBSAT: e = mk_ite(mk_cmp(O_ULT, x, y), mk_const(w, 0), mk_bin(O_SUB, x, y)); break;
        case VSI_UADDSAT: e = mk_ite(mk_cmp(O_ULT, mk_bin(O_ADD, x, y), x), mk_const(w, ~0ULL), mk_bin(O_ADD, x, y)); break;
        case VSI_FSHL: case VSI_FSHR:
        {
            if (sc) { conc("fsh", sc, c, w, "funnel-shift"); }
            u64 s = c % w;
            if (s == 0) e = op == VSI_FSHL ? x : y;
            else if (op == VSI_FSHL) e = mk_concat(mk_extract(x, w - 1 - s, 0), mk_extract(y, w - 1, w - s));
            else e = mk_concat(mk_extract(x, s - 1, 0), mk_extract(y, w - 1, s));
            break;
        }
        default:
            if (sa) conc("intr", sa, a, w, "intr"); if (sb) conc("intr", sb, b, w, "intr"); return nullptr;
    }
    return ret(e, r);
}
static const Op F2OPS[] = {O_FADD, O_FSUB, O_FMUL, O_FDIV};
Expr* __vs_f2(int op, int w, Expr* sa, Expr* sb, u64 a, u64 b, u64 r)
{
    if (!sa && !sb) return nullptr;
    sa = chk(sa, a, w); sb = chk(sb, b, w); if (!sa && !sb) return nullptr;
    if (op <= VSF_DIV) return ret(mk_f2(F2OPS[op], K(w, sa, a), K(w, sb, b)), r);
    if (op == VSF_MIN || op == VSF_MAX)
    {
        Expr *x = K(w, sa, a), *y = K(w, sb, b);
        Expr* lt = mk_fcmp(O_FLT, x, y);
        return ret(op == VSF_MIN ? mk_ite(lt, x, y) : mk_ite(lt, y, x), r);
    }
    if (sa) conc("fp", sa, a, w, "f2"); if (sb) conc("fp", sb, b, w, "f2");
    return nullptr;
}
static Op f1op(int op)
{
    switch (op) { case VSF_NEG: return O_FNEG; case VSF_ABS: return O_FABS; case VSF_RINT: return O_FRINT; case VSF_ROUND: return O_FROUND; case VSF_FLOOR: return O_FFLOOR; case VSF_CEIL: return O_FCEIL; case VSF_TRUNC: return O_FTRUNC; default: return O_FSQRT; }
}
Expr* __vs_f1(int op, int w, Expr* s, u64 a, u64 r)
{
    if (!s) return nullptr;
    s = chk(s, a, w); if (!s) return nullptr;
    return ret(mk_f1(f1op(op), s), r);
}
Expr* __vs_ftoi(int mode, Expr* s, u64 a, u64 r)
{
    if (!s) return nullptr;
    s = chk(s, a, 64); if (!s) return nullptr;
    Expr* x = mk_f1(f1op(mode), s);
    return __vs_cast(VSC_FPTOSI, 64, 64, x, x->val, r);
}
// variadic function: put the shadows of the variadic arguments where va_arg
// will read them (x86-64 System V layout)
void __vs_va_start(void* ap, void* nfixed_, void* fixedregs_)
{
    if (!active) return;
    // handled by __vs_va_args using the saved argument list
    unsigned nfixed = (u64)nfixed_; unsigned gp = (u64)fixedregs_ / 16, fp = (u64)fixedregs_ % 16;
    struct VA { unsigned gp_offset, fp_offset; char* overflow; char* reg; }* va = (VA*)ap;
    char* ov = va->overflow;
    for (unsigned i = nfixed; i < saved_n && i < 64; ++i)
    {
        Expr* e = saved_args[i];
        bool isf = (saved_fpm >> i) & 1;
        char* slot;
        if (isf && fp < 8) { slot = va->reg + 48 + 16 * fp; ++fp; }
        else if (!isf && gp < 6) { slot = va->reg + 8 * gp; ++gp; }
        else { slot = ov; ov += 8; }
        clear_range((u64)slot, 8);
        if (!e) continue;
        u64 cur; memcpy(&cur, slot, 8);
        if (e->w > 64 || (cur & mask(e->w)) != e->val) continue;
        unsigned n = (e->w + 7) / 8;
        Expr* x = e->w < n * 8 ? mk_zext(e, n * 8) : e;
        for (unsigned k = 0; k < n; ++k) setb((u64)slot + k, mk_extract(x, 8 * k + 7, 8 * k));
    }
    (void)fp;
}
void __vs_fn(const char*) {}

// ---------------------------------------------------------------- harness API
void vs_int(void* p, size_t n, const char* name, u64 lo, u64 hi)
{
    static bool native = getenv("VS_REPLAY_FILE") != nullptr; (void)native;
    __vs_args_done();
    std::string nm = name; unsigned k = namecount[nm]++;
    if (k) nm += "#" + std::to_string(k);
    u64 v = 0; memcpy(&v, p, n);
    if (input) { auto it = input->find(nm); if (it != input->end()) v = it->second; }
    if (v < lo) v = lo; if (v > hi) v = hi;
    memcpy(p, &v, n);
    active = true;
    Expr* e = mk_var(n * 8, v, vars.size(), lo, hi);
    vars.push_back({nm, (unsigned)n * 8, v, lo, hi, e}); g_nvars = vars.size();
    clear_range((u64)p, n);
    if (e->op == O_CONST) return;
    for (unsigned i = 0; i < n; ++i) setb((u64)p + i, mk_extract(e, 8 * i + 7, 8 * i));
}
void vs_bytes(void* p, size_t n, const char* name)
{
    for (size_t i = 0; i < n; ++i) vs_int((char*)p + i, 1, (std::string(name) + "[" + std::to_string(i) + "]").c_str(), 0, 255);
}
void vs_f64(double* p, const char* name) { vs_int(p, 8, name, 0, ~0ULL); }
void vs_assume(int cond)
{
    Expr* s = __vs_arg(0, (uint32_t)cond, 32); __vs_args_done();
    if (!s) { if (!cond) finish_path('A', ""); return; }
    Expr* c = mk_not(mk_cmp(O_EQ, s, mk_const(32, 0)));
    if (cond) { push(K_ASSUME, c, "assume", nullptr, 0, nullptr, 0, 1); return; }
    push(K_BRANCH, mk_not(c), "assume", nullptr, 0, nullptr, 0, 0);
    finish_path('A', "");
}
void vs_assert(int cond, const char* label)
{
    Expr* s = __vs_arg(0, (uint32_t)cond, 32); __vs_args_done();
    if (!cond) finish_path('V', label);
    if (!s) return;
    Expr* c = mk_not(mk_cmp(O_EQ, s, mk_const(32, 0)));
    push(K_ASSERT, c, label, nullptr, 0, nullptr, 0, 1);
}
void vs_fail(const char* label) { finish_path('V', label); }
void vs_reach(const char* label) { __vs_args_done(); reached.insert(label); }
void vs_known(const char* id) { finish_path('K', id); }
void vs_note(const char* fmt, ...)
{
    __vs_args_done();
    char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (notes.size() < 20) notes.push_back(b);
}
int vs_thorough(void) { __vs_args_done(); __vs_clear_ret(); return opt.thorough; }
u64 vs_concretize(u64 v)
{
    Expr* s = __vs_arg(0, v, 64); __vs_args_done(); __vs_clear_ret();
    if (s) conc("vs_concretize", s, v, 64, "harness");
    return v;
}
} // extern "C"

// ---------------------------------------------------------------- solver
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct QStats { u64 sat = 0, unsat = 0, unknown = 0, trivial = 0, reuse = 0; double time = 0, maxtime = 0; } qs;

struct Tr
{
    z3::context c;
    std::unordered_map<Expr*, z3::expr> mb, mv, mf;
    z3::expr var(Expr* e) { return c.bv_const(("v" + std::to_string(e->var)).c_str(), e->w); }
    // operands whose range is known to be small are computed in fewer bits
    static unsigned nbits(u64 v) { unsigned n = 1; while (v >>= 1) ++n; return n; }
    z3::expr low(Expr* e, unsigned k) { z3::expr x = bv(e); return k < e->w ? x.extract(k - 1, 0) : x; }
    z3::expr wide(z3::expr x, unsigned k, unsigned w) { return k < w ? z3::zext(x, w - k) : x; }
    z3::sort fs(unsigned w) { return w == 64 ? c.fpa_sort(11, 53) : c.fpa_sort(8, 24); }
    z3::expr rne() { return z3::expr(c, Z3_mk_fpa_rne(c)); }
    z3::expr fp(Expr* e) // FP-sorted view of a float-valued term
    {
        auto it = mf.find(e); if (it != mf.end()) return it->second;
        z3::expr r(c);
        auto w1 = [&](Z3_ast a) { return z3::expr(c, a); };
        switch (e->op)
        {
            case O_FADD: r = w1(Z3_mk_fpa_add(c, rne(), fp(e->a), fp(e->b))); break;
            case O_FSUB: r = w1(Z3_mk_fpa_sub(c, rne(), fp(e->a), fp(e->b))); break;
            case O_FMUL: r = w1(Z3_mk_fpa_mul(c, rne(), fp(e->a), fp(e->b))); break;
            case O_FDIV: r = w1(Z3_mk_fpa_div(c, rne(), fp(e->a), fp(e->b))); break;
            case O_FNEG: r = w1(Z3_mk_fpa_neg(c, fp(e->a))); break;
            case O_FABS: r = w1(Z3_mk_fpa_abs(c, fp(e->a))); break;
            case O_FSQRT: r = w1(Z3_mk_fpa_sqrt(c, rne(), fp(e->a))); break;
            case O_FRINT: r = w1(Z3_mk_fpa_round_to_integral(c, rne(), fp(e->a))); break;
            case O_FROUND: r = w1(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), fp(e->a))); break;
            case O_FFLOOR: r = w1(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), fp(e->a))); break;
            case O_FCEIL: r = w1(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), fp(e->a))); break;
            case O_FTRUNC: r = w1(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), fp(e->a))); break;
            case O_SITOFP: case O_UITOFP:
                if (unsigned k = nbits(e->a->uhi) + 1; k < e->a->w) { r = w1(Z3_mk_fpa_to_fp_signed(c, rne(), low(e->a, k), fs(e->w))); break; }
                if (e->op == O_UITOFP) { r = w1(Z3_mk_fpa_to_fp_unsigned(c, rne(), bv(e->a), fs(e->w))); break; }
                r = w1(Z3_mk_fpa_to_fp_signed(c, rne(), bv(e->a), fs(e->w))); break;
            case O_FPEXT: case O_FPTRUNC: r = w1(Z3_mk_fpa_to_fp_float(c, rne(), fp(e->a), fs(e->w))); break;
            case O_ITE: r = z3::ite(bl(e->a), fp(e->b), fp(e->c)); break;
            default: r = w1(Z3_mk_fpa_to_fp_bv(c, bv(e), fs(e->w))); break;
        }
        mf.emplace(e, r);
        return r;
    }
    z3::expr bl(Expr* e)
    {
        auto it = mb.find(e); if (it != mb.end()) return it->second;
        z3::expr r(c);
        switch (e->op)
        {
            case O_CONST: r = c.bool_val(e->val != 0); break;
            case O_NOT: r = !bl(e->a); break;
            case O_AND: r = bl(e->a) && bl(e->b); break;
            case O_OR: r = bl(e->a) || bl(e->b); break;
            case O_XOR: r = bl(e->a) != bl(e->b); break;
            case O_EQ: if (e->a->w == 1) r = bl(e->a) == bl(e->b); else r = bv(e->a) == bv(e->b); break;
            case O_ULT: r = z3::ult(bv(e->a), bv(e->b)); break;
            case O_ULE: r = z3::ule(bv(e->a), bv(e->b)); break;
            case O_SLT: r = z3::slt(bv(e->a), bv(e->b)); break;
            case O_SLE: r = z3::sle(bv(e->a), bv(e->b)); break;
            case O_ITE: r = z3::ite(bl(e->a), bl(e->b), bl(e->c)); break;
            case O_FEQ: r = z3::expr(c, Z3_mk_fpa_eq(c, fp(e->a), fp(e->b))); break;
            case O_FLT: r = z3::expr(c, Z3_mk_fpa_lt(c, fp(e->a), fp(e->b))); break;
            case O_FLE: r = z3::expr(c, Z3_mk_fpa_leq(c, fp(e->a), fp(e->b))); break;
            case O_ISNAN: r = z3::expr(c, Z3_mk_fpa_is_nan(c, fp(e->a))); break;
            default: r = bv(e) == c.bv_val(1, 1); break;
        }
        mb.emplace(e, r);
        return r;
    }
    z3::expr bv(Expr* e)
    {
        auto it = mv.find(e); if (it != mv.end()) return it->second;
        z3::expr r(c);
        switch (e->op)
        {
            case O_CONST: r = c.bv_val((uint64_t)e->val, e->w); break;
            case O_VAR: r = var(e); break;
            case O_NEG: r = -bv(e->a); break;
            case O_ADD: r = bv(e->a) + bv(e->b); break;
            case O_SUB: r = bv(e->a) - bv(e->b); break;
            case O_MUL:
            {
                unsigned __int128 p = (unsigned __int128)e->a->uhi * e->b->uhi;
                unsigned k = p > mask(e->w) ? e->w : nbits((u64)p);
                if (k < e->w) { k = std::max(k, std::max(nbits(e->a->uhi), nbits(e->b->uhi))); }
                if (k < e->w) { r = wide(low(e->a, k) * low(e->b, k), k, e->w); break; }
                r = bv(e->a) * bv(e->b); break;
            }
            case O_UDIV: case O_UREM:
            {
                unsigned k = std::max(nbits(e->a->uhi), nbits(e->b->uhi));
                // division by zero is never reached: it is a decision of its own
                if (k < e->w && e->b->ulo > 0) { z3::expr x = low(e->a, k), y = low(e->b, k); r = wide(e->op == O_UDIV ? z3::udiv(x, y) : z3::urem(x, y), k, e->w); break; }
                r = e->op == O_UDIV ? z3::udiv(bv(e->a), bv(e->b)) : z3::urem(bv(e->a), bv(e->b)); break;
            }
            case O_SDIV: r = bv(e->a) / bv(e->b); break;
            case O_SREM: r = z3::srem(bv(e->a), bv(e->b)); break;
            case O_SHL: r = z3::shl(bv(e->a), bv(e->b)); break;
            case O_LSHR: r = z3::lshr(bv(e->a), bv(e->b)); break;
            case O_ASHR: r = z3::ashr(bv(e->a), bv(e->b)); break;
            case O_ZEXT: r = z3::zext(bv(e->a), e->w - e->a->w); break;
            case O_SEXT: r = z3::sext(bv(e->a), e->w - e->a->w); break;
            case O_EXTRACT: r = bv(e->a).extract(e->lo + e->w - 1, e->lo); break;
            case O_CONCAT: r = z3::concat(bv(e->a), bv(e->b)); break;
            case O_ITE: r = z3::ite(bl(e->a), bv(e->b), bv(e->c)); break;
            case O_FPTOSI: r = z3::expr(c, Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fp(e->a), e->w)); break;
            case O_FPTOUI: r = z3::expr(c, Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fp(e->a), e->w)); break;
            case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FNEG: case O_FABS: case O_FRINT: case O_FROUND: case O_FFLOOR: case O_FCEIL: case O_FTRUNC: case O_FSQRT: case O_SITOFP: case O_UITOFP: case O_FPEXT: case O_FPTRUNC:
                r = z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, fp(e))); break;
            case O_NOT: if (e->w > 1) { r = ~bv(e->a); break; } r = z3::ite(bl(e), c.bv_val(1, 1), c.bv_val(0, 1)); break;
            case O_AND: if (e->w > 1) { r = bv(e->a) & bv(e->b); break; } r = z3::ite(bl(e), c.bv_val(1, 1), c.bv_val(0, 1)); break;
            case O_OR: if (e->w > 1) { r = bv(e->a) | bv(e->b); break; } r = z3::ite(bl(e), c.bv_val(1, 1), c.bv_val(0, 1)); break;
            case O_XOR: if (e->w > 1) { r = bv(e->a) ^ bv(e->b); break; } r = z3::ite(bl(e), c.bv_val(1, 1), c.bv_val(0, 1)); break;
            default: r = z3::ite(bl(e), c.bv_val(1, 1), c.bv_val(0, 1)); break;
        }
        mv.emplace(e, r);
        return r;
    }
};
static Tr* tr = nullptr;
static std::unordered_map<Expr*, std::vector<uint32_t>> varsof;
static const std::vector<uint32_t>& vo(Expr* e)
{
    auto it = varsof.find(e); if (it != varsof.end()) return it->second;
    std::vector<uint32_t> r;
    if (e->op == O_VAR) r.push_back(e->var);
    else for (Expr* k : {e->a, e->b, e->c}) if (k && k->op != O_CONST) { auto& v = vo(k); std::vector<uint32_t> m; std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(m)); r.swap(m); }
    return varsof[e] = r;
}
static bool has_fp(Expr* e, std::unordered_set<Expr*>& seen)
{
    if (!seen.insert(e).second) return false;
    if (e->op >= O_FADD) return true;
    for (Expr* k : {e->a, e->b, e->c}) if (k && has_fp(k, seen)) return true;
    return false;
}

// is (cs and extra...) satisfiable?  1 sat (model applied on top of the
// current input), 0 unsat, -1 unknown
static int solve(size_t prefix, const std::vector<Expr*>& extra, Input& out)
{
    // slice: constraints of the prefix transitively sharing variables
    std::set<uint32_t> vs;
    for (auto* e : extra) for (auto v : vo(e)) vs.insert(v);
    std::vector<char> in(prefix, 0);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < prefix; ++i) if (!in[i])
        {
            for (auto v : vo(trace[i].cond)) if (vs.count(v)) { in[i] = 1; break; }
            if (in[i]) for (auto v : vo(trace[i].cond)) if (vs.insert(v).second) ch = true;
        }
    }
    double t0 = now();
    if (!tr) tr = new Tr;
    int res;
    try
    {
        std::unordered_set<Expr*> seen; bool fpq = false;
        for (auto* e : extra) fpq |= has_fp(e, seen);
        for (size_t i = 0; i < prefix; ++i) if (in[i]) fpq |= has_fp(trace[i].cond, seen);
        z3::solver s = fpq ? z3::solver(tr->c, "QF_FPBV") : z3::solver(tr->c, "QF_BV");
        z3::params p(tr->c); p.set("timeout", opt.qtimeout_ms); s.set(p);
        for (size_t i = 0; i < prefix; ++i) if (in[i]) s.add(tr->bl(trace[i].cond));
        for (auto* e : extra) s.add(tr->bl(e));
        for (auto v : vs)
        {
            auto& vi = vars[v];
            if (vi.lo > 0) s.add(z3::uge(tr->bv(vi.e), tr->c.bv_val((uint64_t)vi.lo, vi.w)));
            if (vi.hi < mask(vi.w)) s.add(z3::ule(tr->bv(vi.e), tr->c.bv_val((uint64_t)vi.hi, vi.w)));
        }
        auto r = s.check();
        if (r == z3::sat)
        {
            res = 1;
            z3::model m = s.get_model();
            for (auto& vi : vars) out[vi.name] = vi.val;
            for (auto v : vs)
            {
                z3::expr x = m.eval(tr->bv(vars[v].e), true);
                out[vars[v].name] = x.get_numeral_uint64();
            }
        }
        else res = r == z3::unsat ? 0 : -1;
    }
    catch (z3::exception& e) { res = -1; if (opt.verbose) fprintf(stderr, "z3: %s\n", e.msg()); }
    double dt = now() - t0;
    qs.time += dt; if (dt > qs.maxtime) qs.maxtime = dt;
    if (res == 1) ++qs.sat; else if (res == 0) ++qs.unsat; else ++qs.unknown;
    return res;
}

// ---------------------------------------------------------------- path end
struct Item { Input in; unsigned bound = 0; u64 hash = 0; unsigned depth = 0; unsigned tries = 0; };
static int outfd = -1;
static std::string obuf;
static void w8(char c) { obuf += c; }
static void w64(u64 v) { obuf.append((char*)&v, 8); }
static void wd(double v) { obuf.append((char*)&v, 8); }
static void wstr(const std::string& s) { w64(s.size()); obuf += s; }
static void flush_out()
{
    size_t o = 0;
    while (o < obuf.size()) { ssize_t n = write(outfd, obuf.data() + o, obuf.size() - o); if (n <= 0) { if (errno == EINTR) continue; break; } o += n; }
    obuf.clear();
}
static void emit_item(const Input& in, unsigned b, u64 h)
{
    w8('I'); w64(in.size());
    for (auto& kv : in) { wstr(kv.first); w64(kv.second); }
    w64(b); w64(h);
}
static u64 flip_hash(size_t i, u64 dir, Kind k)
{
    u64 r = i ? trace[i - 1].hash : 1469598103934665603ULL;
    u64 sh = 0; for (const char* p = trace[i].site; *p; ++p) sh = sh * 131 + (unsigned char)*p;
    return hmix(hmix(hmix(r, sh), k), dir);
}
static u64 unknown_sites = 0, truncated = 0;
static std::map<std::string, u64> unk;
static double child_deadline = 0;

static void finish_path(char status, const char* label)
{
    active = false;
    struct itimerval z = {}; setitimer(ITIMER_VIRTUAL, &z, nullptr);
    // status first, so that it is not lost
    w8('S'); w8(status); wstr(label ? label : "");
    Input cur; for (auto& v : vars) cur[v.name] = v.val;
    w64(cur.size()); for (auto& kv : cur) { wstr(kv.first); w64(kv.second); }
    w64(notes.size()); for (auto& n : notes) wstr(n);
    w64(reached.size()); for (auto& n : reached) wstr(n);
    w64(trace.size());
    if (diverged) { w8('D'); }
    else
    {
        for (size_t i = bound; i < trace.size(); ++i)
        {
            if (child_deadline && now() > child_deadline) { ++truncated; break; }
            Ent& t = trace[i];
            if (t.kind == K_ASSUME) continue;
            Input in;
            if (t.kind == K_BRANCH || t.kind == K_ASSERT || t.kind == K_BOUND)
            {
                int r = solve(i, {mk_not(t.cond)}, in);
                if (r == 1)
                {
                    // bound checks change the path in an unpredictable way: no hash check
                    u64 h = 0;
                    if (t.kind == K_ASSERT) h = flip_hash(i, 0, K_ASSERT);
                    else if (t.kind == K_BRANCH) h = !strcmp(t.site, "assume") ? flip_hash(i, 1, K_ASSUME) : flip_hash(i, 1 - t.dir, K_BRANCH);
                    emit_item(in, i + 1, h);
                }
                else if (r < 0) { ++unknown_sites; ++unk[t.site]; }
            }
            else if (t.kind == K_CONC)
            {
                std::vector<Expr*> ex{mk_not(t.cond)};
                unsigned n = 0;
                while (true)
                {
                    if (n >= opt.conc_limit) { ++truncated; ++unk[std::string("enumeration limit ") + t.site]; break; }
                    int r = solve(i, ex, in);
                    if (r < 0) { ++unknown_sites; ++unk[t.site]; break; }
                    if (r == 0) break;
                    // value of the term under the new input
                    z3::context& c = tr->c; (void)c;
                    z3::expr_vector from(tr->c), to(tr->c);
                    for (auto v : vo(t.e)) { from.push_back(tr->bv(vars[v].e)); to.push_back(tr->c.bv_val((uint64_t)in[vars[v].name], vars[v].w)); }
                    z3::expr val = tr->bv(t.e).substitute(from, to).simplify();
                    uint64_t nv; 
                    if (!val.is_numeral()) { ++unknown_sites; ++unk[t.site]; break; }
                    nv = val.get_numeral_uint64();
                    emit_item(in, i + 1, flip_hash(i, nv, K_CONC));
                    ex.push_back(mk_not(mk_cmp(O_EQ, t.e, mk_const(t.e->w, nv))));
                    ++n;
                    if (child_deadline && now() > child_deadline) { ++truncated; break; }
                }
            }
            else if (t.kind == K_SWITCH)
            {
                std::set<u64> succs; succs.insert(0);
                for (int k = 0; k < t.ncases; ++k) succs.insert(t.cases[2 * k + 1]);
                for (u64 s : succs) if (s != t.v)
                {
                    Expr* c;
                    unsigned w = t.e->w;
                    if (s) { c = mk_const(1, 0); for (int k = 0; k < t.ncases; ++k) if (t.cases[2 * k + 1] == s) c = mk_bin(O_OR, c, mk_cmp(O_EQ, t.e, mk_const(w, t.cases[2 * k]))); }
                    else { c = mk_const(1, 1); for (int k = 0; k < t.ncases; ++k) if (t.cases[2 * k + 1]) c = mk_bin(O_AND, c, mk_not(mk_cmp(O_EQ, t.e, mk_const(w, t.cases[2 * k])))); }
                    if (c->op == O_CONST && !c->val) continue;
                    int r = solve(i, {c}, in);
                    if (r == 1) emit_item(in, i + 1, flip_hash(i, s, K_SWITCH));
                    else if (r < 0) { ++unknown_sites; ++unk[t.site]; }
                }
            }
        }
    }
    w8('Q'); w64(qs.sat); w64(qs.unsat); w64(qs.unknown); wd(qs.time); wd(qs.maxtime); w64(truncated); w64(mismatches); w64(symops); w64(g_fp_lemmas); wstr(mismatch_what);
    w64(lost.size()); for (auto& kv : lost) { wstr(kv.first); w64(kv.second); }
    w64(concs.size()); for (auto& kv : concs) { wstr(kv.first); w64(kv.second); }
    w64(unk.size()); for (auto& kv : unk) { wstr(kv.first); w64(kv.second); }
    std::map<std::string, u64> sites;
    for (auto& t : trace) if (t.kind == K_BRANCH || t.kind == K_SWITCH || t.kind == K_CONC) ++sites[t.site];
    w64(sites.size()); for (auto& kv : sites) { wstr(kv.first); w64(kv.second); }
    w8('E');
    flush_out();
    _exit(0);
}
static void on_hang(int) { finish_path('H', "no result within the step budget"); }
static void on_abort(int sig)
{
    // libstdc++ assertion / abort(): report as a violation of this path
    finish_path('C', sig == SIGABRT ? "abort" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "signal");
}

// ---------------------------------------------------------------- coordinator
static VsHarness* harnesses = nullptr;
VsHarness::VsHarness(const char* name, const char* prop, void (*setup)(), void (*run)()) : name(name), prop(prop), setup(setup), run(run), next(harnesses) { harnesses = this; }

struct Child { pid_t pid; int fd; std::string buf; Item item; std::string errfile; double t0; };
struct Rd
{
    const std::string& b; size_t o = 0; bool fail = false;
    Rd(const std::string& b) : b(b) {}
    char c() { if (o >= b.size()) { fail = true; return 0; } return b[o++]; }
    u64 n() { u64 v = 0; if (o + 8 > b.size()) { fail = true; return 0; } memcpy(&v, &b[o], 8); o += 8; return v; }
    double d() { double v = 0; if (o + 8 > b.size()) { fail = true; return 0; } memcpy(&v, &b[o], 8); o += 8; return v; }
    std::string s() { u64 l = n(); if (fail || o + l > b.size()) { fail = true; return ""; } std::string r = b.substr(o, l); o += l; return r; }
};
static std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; }
    return r;
}
static std::string jmap(const std::map<std::string, u64>& m, size_t lim = 1000)
{
    std::string r = "{"; bool first = true; size_t n = 0;
    for (auto& kv : m) { if (n++ >= lim) break; if (!first) r += ", "; first = false; r += "\"" + jesc(kv.first) + "\": " + std::to_string(kv.second); }
    return r + "}";
}

int main(int argc, char** argv)
{
    std::string hname, out; bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { return argv[++i]; };
        if (a == "--harness") hname = val();
        else if (a == "--out") out = val();
        else if (a == "--time") opt.time_limit = atof(val());
        else if (a == "--jobs") opt.jobs = atoi(val());
        else if (a == "--qtimeout") opt.qtimeout_ms = atoi(val());
        else if (a == "--run-cpu") opt.run_cpu = atof(val());
        else if (a == "--conc-limit") opt.conc_limit = atoi(val());
        else if (a == "--max-paths") opt.max_paths = atoi(val());
        else if (a == "--max-viol") opt.max_viol = atoi(val());
        else if (a == "--thorough") opt.thorough = true;
        else if (a == "--seed") opt.seed = atoi(val());
        else if (a == "--verbose") opt.verbose = true;
        else if (a == "--list") list = true;
    }
    if (list) { for (auto* h = harnesses; h; h = h->next) printf("%s %s\n", h->prop, h->name); return 0; }
    VsHarness* H = nullptr;
    for (auto* h = harnesses; h; h = h->next) if (hname == h->name) H = h;
    if (!H) { fprintf(stderr, "no harness %s\n", hname.c_str()); return 2; }
    expr_init();
    double T0 = now();
    if (H->setup) { H->setup(); }
    double Tsetup = now() - T0;

    char tmpl[] = "/tmp/vsrun.XXXXXX";
    std::string scratch = mkdtemp(tmpl);
    std::deque<Item> queue; queue.push_back(Item());
    std::vector<Child> kids;
    u64 paths = 0, assumed = 0, divergences = 0, maxdepth = 0, knownpaths = 0, ok = 0, hangs = 0, longs = 0; QStats tot; u64 tr_trunc = 0, tr_mism = 0, tr_symops = 0, tr_lem = 0; std::string mism_what; double maxq = 0;
    std::map<std::string, u64> tlost, tconc, tunk, tsites, treach, tknown;
    std::vector<std::string> samples; std::set<std::string> distinct;
    struct Viol { std::string label; Input in; std::string detail; std::vector<std::string> notes; };
    std::vector<Viol> viols; std::set<std::string> viol_labels;
    bool timeout = false; unsigned slot = 0; u64 lostchildren = 0;

    while (!queue.empty() || !kids.empty())
    {
        double el = now() - T0;
        if (el > opt.time_limit || paths >= opt.max_paths || viols.size() >= opt.max_viol) { if (!queue.empty()) timeout = true; queue.clear(); }
        while (!queue.empty() && kids.size() < opt.jobs)
        {
            Item it = queue.front(); queue.pop_front();
            int p[2]; if (pipe(p)) { perror("pipe"); return 2; }
            std::string ef = scratch + "/e" + std::to_string(slot++);
            fflush(stdout);
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); usleep(100000); queue.push_front(it); close(p[0]); close(p[1]); continue; }
            if (pid == 0)
            {
                close(p[0]); outfd = p[1];
                for (auto& k : kids) close(k.fd);
                int e = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (e >= 0 && !(opt.verbose)) { dup2(e, 2); }
                int dn = open("/dev/null", O_RDWR); if (dn >= 0) { dup2(dn, 1); dup2(dn, 0); }
                input = &it.in; bound = it.bound; bound_hash = it.hash;
                child_deadline = T0 + opt.time_limit + 5;
                struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
                signal(SIGVTALRM, on_hang); signal(SIGABRT, on_abort); signal(SIGFPE, on_abort); signal(SIGILL, on_abort);
                struct itimerval tv = {}; tv.it_value.tv_sec = (long)opt.run_cpu; tv.it_value.tv_usec = (long)((opt.run_cpu - (long)opt.run_cpu) * 1e6);
                setitimer(ITIMER_VIRTUAL, &tv, nullptr);
                H->run();
                finish_path('O', "");
            }
            close(p[1]);
            fcntl(p[0], F_SETFL, O_NONBLOCK);
            kids.push_back({pid, p[0], "", it, ef, now()});
        }
        if (kids.empty()) break;
        std::vector<pollfd> pf; for (auto& k : kids) pf.push_back({k.fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 200);
        for (size_t i = 0; i < kids.size();)
        {
            Child& k = kids[i];
            bool eof = false; char b[65536];
            while (true)
            {
                ssize_t n = read(k.fd, b, sizeof b);
                if (n > 0) { k.buf.append(b, n); continue; }
                if (n == 0) eof = true;
                break;
            }
            if (!eof && now() - T0 > opt.time_limit + 60) { kill(k.pid, SIGKILL); ++lostchildren; }
            if (!eof) { ++i; continue; }
            int st = 0; waitpid(k.pid, &st, 0); close(k.fd);
            ++paths;
            // parse
            Rd r(k.buf);
            bool complete = false; char status = 0; std::string label; Input cur; std::vector<std::string> pnotes; 
            std::vector<Item> items; bool diverg = false;
            while (r.o < k.buf.size() && !r.fail)
            {
                char t = r.c();
                if (t == 'S')
                {
                    status = r.c(); label = r.s();
                    u64 n = r.n(); for (u64 j = 0; j < n && !r.fail; ++j) { std::string nm = r.s(); cur[nm] = r.n(); }
                    n = r.n(); for (u64 j = 0; j < n && !r.fail; ++j) pnotes.push_back(r.s());
                    n = r.n(); for (u64 j = 0; j < n && !r.fail; ++j) ++treach[r.s()];
                    u64 d = r.n(); if (d > maxdepth) maxdepth = d;
                }
                else if (t == 'I')
                {
                    Item it; u64 n = r.n(); for (u64 j = 0; j < n && !r.fail; ++j) { std::string nm = r.s(); it.in[nm] = r.n(); }
                    it.bound = r.n(); it.hash = r.n(); if (!r.fail) items.push_back(std::move(it));
                }
                else if (t == 'D') diverg = true;
                else if (t == 'Q')
                {
                    tot.sat += r.n(); tot.unsat += r.n(); tot.unknown += r.n(); tot.time += r.d(); double mq = r.d(); if (mq > maxq) maxq = mq;
                    tr_trunc += r.n(); tr_mism += r.n(); tr_symops += r.n(); tr_lem += r.n(); std::string mw = r.s(); if (!mw.empty() && mism_what.empty()) mism_what = mw;
                    for (auto* m : {&tlost, &tconc, &tunk, &tsites}) { u64 n = r.n(); for (u64 j = 0; j < n && !r.fail; ++j) { std::string nm = r.s(); (*m)[nm] += r.n(); } }
                }
                else if (t == 'E') complete = true;
            }
            // a run that did not follow the path it was made for is repeated
            if (diverg) { if (k.item.tries < 3) { Item again = k.item; ++again.tries; queue.push_back(std::move(again)); items.clear(); } else ++divergences; }
            for (auto& it : items) queue.push_back(std::move(it));
            if (!complete && status == 0)
            {
                // crashed before the end of the path
                std::string err; if (FILE* f = fopen(k.errfile.c_str(), "r")) { char eb[6000]; size_t n = fread(eb, 1, sizeof eb, f); err.assign(eb, n); fclose(f); }
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { ++lostchildren; }
                else
                {
                    status = 'C';
                    size_t p1 = err.find("ERROR: AddressSanitizer: ");
                    if (p1 != std::string::npos)
                    {
                        label = "memory error: " + err.substr(p1 + 25, err.find_first_of(" \n", p1 + 25) - p1 - 25);
                        // first frames inside the code under test
                        size_t q = p1; 
                        while ((q = err.find("    #", q)) != std::string::npos)
                        {
                            size_t e2 = err.find('\n', q); std::string line = err.substr(q, e2 - q); q = e2;
                            size_t in = line.find(" in ");
                            if (in != std::string::npos && line.find("/wreport/") != std::string::npos) { label += " at " + line.substr(in + 4, line.find(" /", in + 4) - in - 4); break; }
                        }
                    }
                    else if ((p1 = err.find("runtime error: ")) != std::string::npos) label = "undefined behaviour: " + err.substr(p1 + 15, err.find('\n', p1) - p1 - 15);
                    else if ((p1 = err.find("Assertion '")) != std::string::npos) label = "container precondition: " + err.substr(p1, err.find('\n', p1) - p1);
                    else if (err.find("terminate called") != std::string::npos) label = "terminate: " + err.substr(err.find("terminate called"), 200);
                    else { char lb[100]; snprintf(lb, 100, "process ended with status 0x%x ", st); label = lb + err.substr(0, 300); }
                    cur = k.item.in;
                    pnotes.push_back(err.substr(0, 1500));
                }
            }
            else if (status == 'C')
            {
                std::string err; if (FILE* f = fopen(k.errfile.c_str(), "r")) { char eb[6000]; size_t n = fread(eb, 1, sizeof eb, f); err.assign(eb, n); fclose(f); }
                size_t p1;
                if ((p1 = err.find("Assertion '")) != std::string::npos) label = "container precondition: " + err.substr(p1, err.find('\n', p1) - p1);
                else if ((p1 = err.find("runtime error: ")) != std::string::npos) label = "undefined behaviour: " + err.substr(p1 + 15, err.find('\n', p1) - p1 - 15);
                else if ((p1 = err.find("terminate called")) != std::string::npos) label = "terminate: " + err.substr(p1, 300);
                pnotes.push_back(err.substr(0, 1500));
            }
            unlink(k.errfile.c_str());
            switch (status)
            {
                case 'O': ++ok; break;
                case 'A': ++assumed; break;
                case 'K': ++knownpaths; ++tknown[label]; break;
                case 'L': ++longs; break;
                case 'H': ++hangs; // a violation as well
                case 'V': case 'C':
                    if (status == 'H') label = "hang: " + label;
                    if (viol_labels.insert(label).second || viols.size() < 1) viols.push_back({label, cur, "", pnotes});
                    break;
                default: break;
            }
            if (status == 'O' && samples.size() < 4 && (paths % 7 == 1 || samples.empty()))
            {
                std::string s; int lim = 0; for (auto& kv : cur) { if (lim++ > 24) { s += " ..."; break; } s += kv.first + "=" + std::to_string(kv.second) + " "; }
                for (auto& n : pnotes) s += "| " + n;
                samples.push_back(s);
            }
            kids.erase(kids.begin() + i);
        }
        if (opt.verbose && paths % 500 < 8) fprintf(stderr, "[%.1f] paths %llu queue %zu sat %llu unsat %llu unk %llu\n", now() - T0, (unsigned long long)paths, queue.size(), (unsigned long long)tot.sat, (unsigned long long)tot.unsat, (unsigned long long)tot.unknown);
    }
    std::string cmd = scratch; rmdir(cmd.c_str());
    // hand-over of anything left
    bool completeRun = !timeout && tot.unknown == 0 && tr_trunc == 0 && longs == 0 && divergences == 0 && lostchildren == 0;
    std::map<std::string, u64> funcs;
    for (auto& kv : tsites) { std::string f = kv.first.substr(0, kv.first.find('#')); funcs[f] += kv.second; }
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"harness\": \"%s\", \"property\": \"%s\", \"complete\": %s, \"timeout\": %s, \"paths\": %llu, \"ok\": %llu, \"assumed_away\": %llu, \"known\": %s, \"divergences\": %llu, \"hangs\": %llu, \"too_long\": %llu, \"lost_children\": %llu,\n",
        H->name, H->prop, completeRun ? "true" : "false", timeout ? "true" : "false", (unsigned long long)paths, (unsigned long long)ok, (unsigned long long)assumed, jmap(tknown).c_str(), (unsigned long long)divergences, (unsigned long long)hangs, (unsigned long long)longs, (unsigned long long)lostchildren);
    fprintf(f, "\"queries\": {\"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"solver_s\": %.3f, \"max_s\": %.3f}, \"truncated\": %llu, \"term_machine_mismatches\": %llu, \"mismatch\": \"%s\", \"symbolic_ops\": %llu, \"fp_rewrites\": %llu, \"max_depth\": %llu, \"setup_s\": %.2f, \"wall_s\": %.2f,\n",
        (unsigned long long)tot.sat, (unsigned long long)tot.unsat, (unsigned long long)tot.unknown, tot.time, maxq, (unsigned long long)tr_trunc, (unsigned long long)tr_mism, jesc(mism_what).c_str(), (unsigned long long)tr_symops, (unsigned long long)tr_lem, (unsigned long long)maxdepth, Tsetup, now() - T0);
    fprintf(f, "\"reached\": %s,\n\"functions\": %s,\n\"concretised\": %s,\n\"unknown_sites\": %s,\n\"outside\": %s,\n\"samples\": [", jmap(treach).c_str(), jmap(funcs, 400).c_str(), jmap(tconc, 60).c_str(), jmap(tunk, 60).c_str(), jmap(tlost, 60).c_str());
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(samples[i]).c_str());
    fprintf(f, "],\n\"violations\": [");
    for (size_t i = 0; i < viols.size(); ++i)
    {
        fprintf(f, "%s{\"label\": \"%s\", \"input\": %s, \"notes\": [", i ? ", " : "", jesc(viols[i].label).c_str(), jmap(viols[i].in, 100000).c_str());
        for (size_t j = 0; j < viols[i].notes.size(); ++j) fprintf(f, "%s\"%s\"", j ? ", " : "", jesc(viols[i].notes[j]).c_str());
        fprintf(f, "]}");
    }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    return 0;
}
