// C models of libc functions, compiled with the instrumentation so that data
// flowing through them stays symbolic. Each follows the C standard's wording.
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#define M(n) __vs_model_##n
size_t M(strlen)(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t M(strnlen)(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int M(strcmp)(const char* a, const char* b)
{
    for (size_t i = 0;; ++i)
    {
        unsigned char x = a[i], y = b[i];
        if (x != y) return (int)x - (int)y;
        if (!x) return 0;
    }
}
int M(strncmp)(const char* a, const char* b, size_t n)
{
    for (size_t i = 0; i < n; ++i)
    {
        unsigned char x = a[i], y = b[i];
        if (x != y) return (int)x - (int)y;
        if (!x) return 0;
    }
    return 0;
}
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int M(strcasecmp)(const char* a, const char* b)
{
    for (size_t i = 0;; ++i)
    {
        unsigned char x = low((unsigned char)a[i]), y = low((unsigned char)b[i]);
        if (x != y) return (int)x - (int)y;
        if (!x) return 0;
    }
}
int M(strncasecmp)(const char* a, const char* b, size_t n)
{
    for (size_t i = 0; i < n; ++i)
    {
        unsigned char x = low((unsigned char)a[i]), y = low((unsigned char)b[i]);
        if (x != y) return (int)x - (int)y;
        if (!x) return 0;
    }
    return 0;
}
char* M(strcpy)(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i])) ++i; return d; }
char* M(stpcpy)(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i])) ++i; return d + i; }
char* M(strncpy)(char* d, const char* s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; ++i) d[i] = s[i];
    for (; i < n; ++i) d[i] = 0;
    return d;
}
char* M(strcat)(char* d, const char* s) { size_t n = M(strlen)(d); M(strcpy)(d + n, s); return d; }
char* M(strchr)(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* M(strrchr)(const char* s, int c) { const char* r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* M(strstr)(const char* h, const char* n)
{
    for (;; ++h)
    {
        size_t i = 0; while (n[i] && h[i] == n[i]) ++i;
        if (!n[i]) return (char*)h;
        if (!*h) return 0;
    }
}
size_t M(strspn)(const char* s, const char* a) { size_t n = 0; for (; s[n]; ++n) { const char* p = a; while (*p && *p != s[n]) ++p; if (!*p) break; } return n; }
size_t M(strcspn)(const char* s, const char* a) { size_t n = 0; for (; s[n]; ++n) { const char* p = a; while (*p && *p != s[n]) ++p; if (*p) break; } return n; }
int M(memcmp)(const void* a, const void* b, size_t n)
{
    const unsigned char *x = a, *y = b;
    for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return (int)x[i] - (int)y[i];
    return 0;
}
// one boolean term instead of n branches
int M(bcmp)(const void* a, const void* b, size_t n)
{
    const unsigned char *x = a, *y = b; unsigned d = 0;
    for (size_t i = 0; i < n; ++i) d |= x[i] ^ y[i];
    return d != 0;
}
void* M(memchr)(const void* s, int c, size_t n) { const unsigned char* p = s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
void* M(memrchr)(const void* s, int c, size_t n) { const unsigned char* p = s; for (size_t i = n; i > 0; --i) if (p[i - 1] == (unsigned char)c) return (void*)(p + i - 1); return 0; }
void* M(memccpy)(void* d, const void* s, int c, size_t n) { unsigned char* o = d; const unsigned char* p = s; for (size_t i = 0; i < n; ++i) { o[i] = p[i]; if (p[i] == (unsigned char)c) return o + i + 1; } return 0; }
void* M(mempcpy)(void* d, const void* s, size_t n) { unsigned char* o = d; const unsigned char* p = s; for (size_t i = 0; i < n; ++i) o[i] = p[i]; return o + n; }
size_t malloc_usable_size(void*);
void* M(realloc)(void* p, size_t n)
{
    char* r = malloc(n); if (!r) return 0;
    if (p) { size_t o = malloc_usable_size(p); char* q = p; for (size_t i = 0; i < o && i < n; ++i) r[i] = q[i]; free(p); }
    return r;
}
void* M(reallocarray)(void* p, size_t a, size_t b) { return M(realloc)(p, a * b); }
char* M(strdup)(const char* s) { size_t n = M(strlen)(s) + 1; char* r = malloc(n); for (size_t i = 0; i < n; ++i) r[i] = s[i]; return r; }
// C locale
int M(isdigit)(int c) { return (unsigned)c - '0' < 10; }
int M(isspace)(int c) { return (c == ' ') | ((unsigned)c - 9 < 5); }
int M(isupper)(int c) { return (unsigned)c - 'A' < 26; }
int M(islower)(int c) { return (unsigned)c - 'a' < 26; }
int M(isalpha)(int c) { return ((unsigned)c | 32) - 'a' < 26; }
int M(isalnum)(int c) { return (((unsigned)c | 32) - 'a' < 26) | ((unsigned)c - '0' < 10); }
int M(isprint)(int c) { return (unsigned)c - 32 < 95; }
int M(isgraph)(int c) { return (unsigned)c - 33 < 94; }
int M(ispunct)(int c) { return ((unsigned)c - 33 < 94) & !M(isalnum)(c); }
int M(iscntrl)(int c) { return ((unsigned)c < 32) | (c == 127); }
int M(isxdigit)(int c) { return ((unsigned)c - '0' < 10) | (((unsigned)c | 32) - 'a' < 6); }
int M(toupper)(int c) { return M(islower)(c) ? c - 32 : c; }
int M(tolower)(int c) { return M(isupper)(c) ? c + 32 : c; }
static unsigned long long strtoull_(const char* s, char** end, int base, int* neg, int* ovf)
{
    const char* p = s; *neg = 0; *ovf = 0;
    while (M(isspace)((unsigned char)*p)) ++p;
    if (*p == '-') { *neg = 1; ++p; } else if (*p == '+') ++p;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && M(isxdigit)((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; int any = 0;
    for (;; ++p)
    {
        unsigned c = (unsigned char)*p, d;
        if (c - '0' < 10) d = (unsigned char)(c - '0');
        else if ((c | 32) - 'a' < 26) d = (unsigned char)((c | 32) - 'a' + 10);
        else break;
        if (d >= (unsigned)base) break;
        any = 1;
        if (!*ovf && v <= (ULLONG_MAX - 255) / 36) v = v * base + d;
        else if (*ovf || v > (ULLONG_MAX - d) / (unsigned)base) *ovf = 1; else v = v * base + d;
    }
    if (end) *end = (char*)(any ? p : s);
    return v;
}
long M(strtol)(const char* s, char** end, int base)
{
    int neg, ovf; unsigned long long v = strtoull_(s, end, base, &neg, &ovf);
    if (neg) { if (ovf || v > (unsigned long long)LONG_MAX + 1) { errno = ERANGE; return LONG_MIN; } return (long)(0 - v); }
    if (ovf || v > LONG_MAX) { errno = ERANGE; return LONG_MAX; }
    return (long)v;
}
unsigned long M(strtoul)(const char* s, char** end, int base)
{
    int neg, ovf; unsigned long long v = strtoull_(s, end, base, &neg, &ovf);
    if (ovf) { errno = ERANGE; return ULONG_MAX; }
    return neg ? 0 - v : v;
}
long long M(strtoll)(const char* s, char** end, int base) { return M(strtol)(s, end, base); }
unsigned long long M(strtoull)(const char* s, char** end, int base) { return M(strtoul)(s, end, base); }
long M(__isoc23_strtol)(const char* s, char** end, int base) { return M(strtol)(s, end, base); }
unsigned long M(__isoc23_strtoul)(const char* s, char** end, int base) { return M(strtoul)(s, end, base); }
long long M(__isoc23_strtoll)(const char* s, char** end, int base) { return M(strtol)(s, end, base); }
unsigned long long M(__isoc23_strtoull)(const char* s, char** end, int base) { return M(strtoul)(s, end, base); }
// strtod: decimal digits with an optional point; the quotient of two exactly
// representable numbers is the correctly rounded value. Anything else (long
// mantissas, exponents, hex, inf, nan) is left to libc.
__attribute__((section("vs_skip"), noinline)) double __vs_native_strtod(const char* s, char** end) { return strtod(s, end); }
static const double p10d[] = {1., 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15};
double M(strtod)(const char* s, char** end)
{
    const char* p = s; int neg = 0, any = 0, digits = 0, frac = 0, point = 0;
    while (M(isspace)((unsigned char)*p)) ++p;
    if (*p == '-') { neg = 1; ++p; } else if (*p == '+') ++p;
    long m = 0;
    for (;; ++p)
    {
        if (*p == '.' && !point) { point = 1; continue; }
        unsigned d = (unsigned char)*p - '0';
        if (d >= 10) break;
        any = 1;
        if (++digits > 15) return __vs_native_strtod(s, end);
        m = m * 10 + d;
        if (point) ++frac;
    }
    unsigned c = (unsigned char)*p | 32;
    if (!any || c == 'e' || c == 'x' || (neg && m == 0)) return __vs_native_strtod(s, end);
    if (end) *end = (char*)p;
    if (neg) m = -m;
    return (double)m / p10d[frac];
}
int M(atoi)(const char* s) { return (int)M(strtol)(s, 0, 10); }
long M(atol)(const char* s) { return M(strtol)(s, 0, 10); }

// printf family: d i u x X o c s p % with flags 0 - + space, width and
// precision. %.Nf is computed from the value scaled by 10^N when that is next to
// an integer (then the correctly rounded decimal is that integer); other
// floating point conversions are formatted by libc from the concrete value.
double rint(double);
double fabs(double);
static const double p10[] = {1., 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
static int fmt_fixed(char* b, int prec, double v)
{
    if (v == 0 || !(v > -1e15 && v < 1e15) || prec > 15) return -1;
    double x = v * p10[prec];
    if (!(x > -1e15 && x < 1e15)) return -1;
    double n = rint(x);
    if (!(fabs(x - n) < 0.4)) return -1;
    long i = (long)n; unsigned long u = i < 0 ? 0 - (unsigned long)i : (unsigned long)i;
    char d[32]; int nd = 0;
    if (u <= 0xffffffffUL) { uint32_t q = (uint32_t)u; do { d[nd++] = '0' + q % 10; q /= 10; } while (q); }
    else do { d[nd++] = '0' + u % 10; u /= 10; } while (u);
    while (nd <= prec) d[nd++] = '0';
    int k = 0;
    if (v < 0) b[k++] = '-';
    while (nd > 0) { b[k++] = d[--nd]; if (nd == prec && prec > 0) b[k++] = '.'; }
    b[k] = 0;
    return k;
}
__attribute__((section("vs_skip"), noinline)) int __vs_fmt_double(char* b, size_t n, const char* f, double v) { return snprintf(b, n, f, v); }
__attribute__((section("vs_skip"), noinline)) int __vs_fmt_ldouble(char* b, size_t n, const char* f, long double v) { return snprintf(b, n, f, v); }
struct out { char* b; size_t n, pos; };
static inline void put(struct out* o, char c) { if (o->pos + 1 < o->n) o->b[o->pos] = c; o->pos++; }
int M(vsnprintf)(char* b, size_t n, const char* f, va_list ap)
{
    struct out o = {b, n, 0};
    for (; *f; ++f)
    {
        if (*f != '%') { put(&o, *f); continue; }
        const char* start = f; ++f;
        int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0;
        for (;; ++f) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
        if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } ++f; }
        else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        for (;; ++f) { if (*f == 'l' || *f == 'j' || *f == 'z' || *f == 't') lng++; else if (*f == 'h') lng--; else if (*f == 'L') lng = 10; else break; }
        switch (*f)
        {
            case '%': put(&o, '%'); break;
            case 'c': { char c = (char)va_arg(ap, int); if (!left) for (int i = 1; i < width; ++i) put(&o, ' '); put(&o, c); if (left) for (int i = 1; i < width; ++i) put(&o, ' '); break; }
            case 's':
            {
                const char* s = va_arg(ap, const char*); if (!s) s = "(null)";
                size_t l = 0; while ((prec < 0 || l < (size_t)prec) && s[l]) ++l;
                if (!left) for (size_t i = l; i < (size_t)width; ++i) put(&o, ' ');
                for (size_t i = 0; i < l; ++i) put(&o, s[i]);
                if (left) for (size_t i = l; i < (size_t)width; ++i) put(&o, ' ');
                break;
            }
            case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p':
            {
                unsigned long v; int neg = 0; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
                char sign = 0;
                if (*f == 'p') { v = (unsigned long)va_arg(ap, void*); alt = 1; }
                else if (*f == 'd' || *f == 'i')
                {
                    long x;
                    if (lng >= 1) x = va_arg(ap, long); else { int y = va_arg(ap, int); x = lng == -1 ? (short)y : lng <= -2 ? (signed char)y : y; }
                    if (x < 0) { neg = 1; v = 0 - (unsigned long)x; sign = '-'; } else { v = x; if (plus) sign = '+'; else if (space) sign = ' '; }
                }
                else if (lng >= 1) v = va_arg(ap, unsigned long);
                else { unsigned y = va_arg(ap, unsigned); v = lng == -1 ? (unsigned short)y : lng <= -2 ? (unsigned char)y : y; }
                (void)neg;
                char d[32]; int nd = 0;
                if (v <= 0xffffffffUL)
                {
                    uint32_t q = (uint32_t)v;
                    if (!(q == 0 && prec == 0)) do { unsigned r = q % base; q /= base; d[nd++] = r < 10 ? '0' + r : (*f == 'X' ? 'A' : 'a') + r - 10; } while (q);
                }
                else
                    do { unsigned r = v % base; v /= base; d[nd++] = r < 10 ? '0' + r : (*f == 'X' ? 'A' : 'a') + r - 10; } while (v);
                int zeros = prec > nd ? prec - nd : 0;
                int pre = alt && base == 16 ? 2 : 0;
                int total = nd + zeros + (sign ? 1 : 0) + pre;
                if (zero && !left && prec < 0 && total < width) { zeros += width - total; total = width; }
                if (!left) for (int i = total; i < width; ++i) put(&o, ' ');
                if (sign) put(&o, sign);
                if (pre) { put(&o, '0'); put(&o, *f == 'X' ? 'X' : 'x'); }
                for (int i = 0; i < zeros; ++i) put(&o, '0');
                while (nd > 0) put(&o, d[--nd]);
                if (left) for (int i = total; i < width; ++i) put(&o, ' ');
                break;
            }
            case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A':
            {
                char fb[40]; int k = 0; fb[k++] = '%';
                if (left) fb[k++] = '-'; if (zero) fb[k++] = '0'; if (plus) fb[k++] = '+'; if (space) fb[k++] = ' '; if (alt) fb[k++] = '#';
                char w[12]; int nw = 0; int t = width; do { w[nw++] = '0' + t % 10; t /= 10; } while (t); if (width) while (nw) fb[k++] = w[--nw];
                if (prec >= 0) { fb[k++] = '.'; nw = 0; t = prec; do { w[nw++] = '0' + t % 10; t /= 10; } while (t); while (nw) fb[k++] = w[--nw]; }
                char tmp[512]; int r;
                if (lng == 10) { fb[k++] = 'L'; fb[k++] = *f; fb[k] = 0; r = __vs_fmt_ldouble(tmp, sizeof tmp, fb, va_arg(ap, long double)); }
                else
                {
                    double v = va_arg(ap, double);
                    r = -1;
                    if (*f == 'f' && !left && !zero && !plus && !space && !alt && !width) r = fmt_fixed(tmp, prec < 0 ? 6 : prec, v);
                    if (r < 0) { fb[k++] = *f; fb[k] = 0; r = __vs_fmt_double(tmp, sizeof tmp, fb, v); }
                }
                for (int i = 0; i < r && i < 511; ++i) put(&o, tmp[i]);
                break;
            }
            default: while (start <= f && *start) put(&o, *start++); if (!*f) --f; break;
        }
    }
    if (n) b[o.pos < n ? o.pos : n - 1] = 0;
    return (int)o.pos;
}
int M(vsprintf)(char* b, const char* f, va_list ap) { return M(vsnprintf)(b, (size_t)1 << 30, f, ap); }
int M(snprintf)(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = M(vsnprintf)(b, n, f, ap); va_end(ap); return r; }
int M(sprintf)(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = M(vsnprintf)(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
// asprintf: used for error messages only
__attribute__((section("vs_skip"))) int M(vasprintf)(char** p, const char* f, va_list ap) { return vasprintf(p, f, ap); }
__attribute__((section("vs_skip"))) int M(asprintf)(char** p, const char* f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(p, f, ap); va_end(ap); return r; }

// Streams over memory: files registered by the harness (vs_file) keep their
// contents symbolic; every other stream is the real one.
struct vsfile { const char* path; unsigned char* d; size_t n, cap, pos; int eof; };
static struct vsfile files[8];
static unsigned nfiles;
#define SKIP __attribute__((section("vs_skip"), noinline)) static
SKIP FILE* real_fopen(const char* p, const char* m) { return fopen(p, m); }
SKIP int real_fclose(FILE* f) { return fclose(f); }
SKIP char* real_fgets(char* b, int n, FILE* f) { return fgets(b, n, f); }
SKIP int real_getc(FILE* f) { return getc(f); }
SKIP int real_ungetc(int c, FILE* f) { return ungetc(c, f); }
SKIP size_t real_fread(void* b, size_t s, size_t n, FILE* f) { return fread(b, s, n, f); }
SKIP size_t real_fwrite(const void* b, size_t s, size_t n, FILE* f) { return fwrite(b, s, n, f); }
SKIP long real_ftell(FILE* f) { return ftell(f); }
SKIP int real_fseek(FILE* f, long o, int w) { return fseek(f, o, w); }
SKIP int real_feof(FILE* f) { return feof(f); }
SKIP int real_ferror(FILE* f) { return ferror(f); }
SKIP void real_clearerr(FILE* f) { clearerr(f); }
SKIP ssize_t real_getline(char** l, size_t* n, FILE* f) { return getline(l, n, f); }
static struct vsfile* vf(FILE* f) { struct vsfile* v = (struct vsfile*)f; return v >= files && v < files + 8 ? v : 0; }
static char names[8][64];
const char* vs_file(const char* name, void* data, size_t size)
{
    unsigned i = nfiles++ % 8, k = 0;
    for (const char* p = "/virtual/"; *p; ++p) names[i][k++] = *p;
    for (; *name && k < 63; ++name) names[i][k++] = *name;
    names[i][k] = 0;
    files[i].path = names[i]; files[i].d = (unsigned char*)data; files[i].n = files[i].cap = size; files[i].pos = 0; files[i].eof = 0;
    return files[i].path;
}
FILE* M(fopen)(const char* p, const char* m)
{
    for (unsigned i = 0; i < 8; ++i) if (files[i].path && !M(strcmp)(files[i].path, p)) { files[i].pos = 0; files[i].eof = 0; return (FILE*)&files[i]; }
    return real_fopen(p, m);
}
FILE* M(fopen64)(const char* p, const char* m) { return M(fopen)(p, m); }
int M(fclose)(FILE* f) { return vf(f) ? 0 : real_fclose(f); }
static int vgetc(struct vsfile* v) { if (v->pos >= v->n) { v->eof = 1; return EOF; } return v->d[v->pos++]; }
int M(getc)(FILE* f) { struct vsfile* v = vf(f); return v ? vgetc(v) : real_getc(f); }
int M(fgetc)(FILE* f) { return M(getc)(f); }
int M(getc_unlocked)(FILE* f) { return M(getc)(f); }
int M(fgetc_unlocked)(FILE* f) { return M(getc)(f); }
int M(_IO_getc)(FILE* f) { return M(getc)(f); }
int M(ungetc)(int c, FILE* f) { struct vsfile* v = vf(f); if (!v) return real_ungetc(c, f); if (c == EOF || !v->pos) return EOF; v->d[--v->pos] = c; v->eof = 0; return (unsigned char)c; }
char* M(fgets)(char* b, int n, FILE* f)
{
    struct vsfile* v = vf(f);
    if (!v) return real_fgets(b, n, f);
    int i = 0;
    while (i < n - 1)
    {
        int c = vgetc(v);
        if (c == EOF) break;
        b[i++] = c;
        if (c == '\n') break;
    }
    if (!i) return 0;
    b[i] = 0;
    return b;
}
char* M(fgets_unlocked)(char* b, int n, FILE* f) { return M(fgets)(b, n, f); }
size_t M(fread)(void* b, size_t s, size_t n, FILE* f)
{
    struct vsfile* v = vf(f);
    if (!v) return real_fread(b, s, n, f);
    size_t want = s * n, i = 0;
    if (!want) return 0;
    size_t left = v->n - v->pos;
    if (want > left) { v->eof = 1; want = left; }
    for (; i < want; ++i) ((unsigned char*)b)[i] = v->d[v->pos++];
    return want / s;
}
size_t M(fread_unlocked)(void* b, size_t s, size_t n, FILE* f) { return M(fread)(b, s, n, f); }
size_t M(fwrite)(const void* b, size_t s, size_t n, FILE* f)
{
    struct vsfile* v = vf(f);
    if (!v) return real_fwrite(b, s, n, f);
    size_t want = s * n, i = 0;
    if (!want) return 0;
    if (want > v->cap - v->pos) want = v->cap - v->pos;
    for (; i < want; ++i) v->d[v->pos++] = ((const unsigned char*)b)[i];
    if (v->pos > v->n) v->n = v->pos;
    return want / s;
}
size_t M(fwrite_unlocked)(const void* b, size_t s, size_t n, FILE* f) { return M(fwrite)(b, s, n, f); }
long M(ftell)(FILE* f) { struct vsfile* v = vf(f); return v ? (long)v->pos : real_ftell(f); }
long M(ftello)(FILE* f) { return M(ftell)(f); }
long M(ftello64)(FILE* f) { return M(ftell)(f); }
int M(fseek)(FILE* f, long o, int w)
{
    struct vsfile* v = vf(f);
    if (!v) return real_fseek(f, o, w);
    long p = w == SEEK_SET ? o : w == SEEK_CUR ? (long)v->pos + o : (long)v->n + o;
    if (p < 0 || p > (long)v->n) return -1;
    v->pos = p; v->eof = 0;
    return 0;
}
int M(fseeko)(FILE* f, long o, int w) { return M(fseek)(f, o, w); }
int M(fseeko64)(FILE* f, long o, int w) { return M(fseek)(f, o, w); }
void M(rewind)(FILE* f) { M(fseek)(f, 0, SEEK_SET); }
int M(feof)(FILE* f) { struct vsfile* v = vf(f); return v ? v->eof : real_feof(f); }
int M(ferror)(FILE* f) { return vf(f) ? 0 : real_ferror(f); }
int M(feof_unlocked)(FILE* f) { return M(feof)(f); }
int M(ferror_unlocked)(FILE* f) { return M(ferror)(f); }
void M(clearerr)(FILE* f) { struct vsfile* v = vf(f); if (v) v->eof = 0; else real_clearerr(f); }
ssize_t M(getline)(char** l, size_t* n, FILE* f)
{
    struct vsfile* v = vf(f);
    if (!v) return real_getline(l, n, f);
    size_t i = 0;
    for (;;)
    {
        int c = vgetc(v);
        if (c == EOF) break;
        if (!*l || i + 2 > *n) { *n = *n * 2 + 120; *l = M(realloc)(*l, *n); }
        (*l)[i++] = c;
        if (c == '\n') break;
    }
    if (!i) return -1;
    (*l)[i] = 0;
    return i;
}
SKIP int real_fputs(const char* s, FILE* f) { return fputs(s, f); }
SKIP int real_fputc(int c, FILE* f) { return fputc(c, f); }
int M(fputs)(const char* s, FILE* f) { if (!vf(f)) return real_fputs(s, f); size_t n = M(strlen)(s); return n && M(fwrite)(s, n, 1, f) != 1 ? EOF : 1; }
int M(fputs_unlocked)(const char* s, FILE* f) { return M(fputs)(s, f); }
int M(fputc)(int c, FILE* f) { if (!vf(f)) return real_fputc(c, f); unsigned char x = c; return M(fwrite)(&x, 1, 1, f) != 1 ? EOF : x; }
int M(putc)(int c, FILE* f) { return M(fputc)(c, f); }
int M(fputc_unlocked)(int c, FILE* f) { return M(fputc)(c, f); }
int M(putc_unlocked)(int c, FILE* f) { return M(fputc)(c, f); }
