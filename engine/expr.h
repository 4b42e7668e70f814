// Hash-consed bit-vector / IEEE expressions. Every node carries the value it
// has on the current concrete run, so each term built is checked against the
// value the machine computed.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
typedef uint64_t u64;
typedef int64_t i64;
enum Op : uint8_t {
    O_CONST, O_VAR, O_NOT, O_NEG, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FRINT, O_FROUND, O_FFLOOR, O_FCEIL, O_FTRUNC, O_FSQRT,
    O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC, O_FEQ, O_FLT, O_FLE, O_ISNAN
};
struct Expr
{
    Op op; uint8_t w; uint8_t lo; uint8_t flags;
    uint32_t id;
    u64 val;            // concrete value (constant value for O_CONST)
    Expr *a, *b, *c;
    u64 ulo, uhi, pm;   // unsigned range, mask of bits that may be one
    u64 h;
    uint32_t var;       // variable number for O_VAR
};
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
extern unsigned g_nvars;
Expr* mk_const(unsigned w, u64 v);
Expr* mk_var(unsigned w, u64 val, uint32_t n, u64 lo, u64 hi);
Expr* mk_bin(Op op, Expr* a, Expr* b);
Expr* mk_cmp(Op op, Expr* a, Expr* b);
Expr* mk_not(Expr* a);      // bitwise complement (boolean not for width 1)
Expr* mk_neg(Expr* a);
Expr* mk_ite(Expr* c, Expr* a, Expr* b);
Expr* mk_zext(Expr* a, unsigned w);
Expr* mk_sext(Expr* a, unsigned w);
Expr* mk_extract(Expr* a, unsigned hi, unsigned lo);
Expr* mk_concat(Expr* hi, Expr* lo);
Expr* mk_f2(Op op, Expr* a, Expr* b);
Expr* mk_f1(Op op, Expr* a);
Expr* mk_fcmp(Op op, Expr* a, Expr* b);
Expr* mk_itof(Op op, Expr* a, unsigned w);
Expr* mk_ftoi(Op op, Expr* a, unsigned w);
Expr* mk_fcvt(Op op, Expr* a, unsigned w);
void expr_init();
unsigned expr_count();
extern u64 g_fp_lemmas;   // applications of the integer<->double rewrite rules
extern Expr* g_side;          // side condition under which the last mk_ftoi is exact (or null)
