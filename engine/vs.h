// Harness API of the symbolic execution engine
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// Make [p, p+n) symbolic, one 8-bit variable per byte. The bytes found there
// are the values used by the first path.
void vs_bytes(void* p, size_t n, const char* name);
// Make *p (n bytes, little endian integer) one symbolic variable, in the
// unsigned range [lo, hi]
void vs_int(void* p, size_t n, const char* name, uint64_t lo, uint64_t hi);
// A symbolic double (any bit pattern)
void vs_f64(double* p, const char* name);
void vs_assume(int cond);
// The obligation: the solver looks for inputs making cond false
void vs_assert(int cond, const char* label);
// Unconditional violation (e.g. unexpected exception type)
void vs_fail(const char* label);
// Reachability witness: must be hit by at least one path of the harness
void vs_reach(const char* label);
// End this path as a listed known finding
void vs_known(const char* id);
// Append a note to the samples of this path
void vs_note(const char* fmt, ...);
// 1 in the thorough tier
int vs_thorough(void);
// enumerate the feasible values of v now (turns v into a constant on each path)
uint64_t vs_concretize(uint64_t v);
// A file with these contents (kept, not copied), for fopen
const char* vs_file(const char* name, void* data, size_t size);
}
struct VsHarness
{
    const char* name;
    const char* prop;
    void (*setup)();
    void (*run)();
    VsHarness* next;
    VsHarness(const char* name, const char* prop, void (*setup)(), void (*run)());
};
static inline unsigned vs_u(const char* name, unsigned lo, unsigned hi, unsigned init)
{
    volatile unsigned v = init;
    vs_int((void*)&v, 4, name, lo, hi);
    return v;
}
// signed integer in [lo, hi]
static inline int vs_i(const char* name, int lo, int hi, int init)
{
    volatile unsigned v = (unsigned)init - (unsigned)lo;
    vs_int((void*)&v, 4, name, 0, (uint64_t)((int64_t)hi - (int64_t)lo));
    return (int)(v + (unsigned)lo);
}
static inline uint64_t vs_u64(const char* name, uint64_t lo, uint64_t hi, uint64_t init)
{
    volatile uint64_t v = init;
    vs_int((void*)&v, 8, name, lo, hi);
    return v;
}
#define HARNESS(prop, id, setupfn) \
    static void id##_run(); \
    static VsHarness id##_reg(#id, prop, setupfn, id##_run); \
    static void id##_run()
