// Plain runtime used to replay a counterexample against the real code, built
// without the symbolic instrumentation.
#include "vs.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
static std::map<std::string, uint64_t> in; static std::map<std::string, unsigned> cnt;
static VsHarness* hs = nullptr; static bool thorough = false;
VsHarness::VsHarness(const char* name, const char* prop, void (*setup)(), void (*run)()) : name(name), prop(prop), setup(setup), run(run), next(hs) { hs = this; }
static std::vector<std::string> tmpfiles;
static std::string tmpd;
static void rmtmp() { for (auto& f : tmpfiles) unlink(f.c_str()); if (!tmpd.empty()) rmdir(tmpd.c_str()); }
static void done(int c) { fflush(stdout); rmtmp(); _exit(c); }
extern "C" {
void vs_int(void* p, size_t n, const char* name, uint64_t lo, uint64_t hi)
{
    std::string nm = name; unsigned k = cnt[nm]++; if (k) nm += "#" + std::to_string(k);
    uint64_t v = 0; memcpy(&v, p, n);
    auto it = in.find(nm); if (it != in.end()) v = it->second;
    if (v < lo) v = lo; if (v > hi) v = hi;
    memcpy(p, &v, n);
}
void vs_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; ++i) vs_int((char*)p + i, 1, (std::string(name) + "[" + std::to_string(i) + "]").c_str(), 0, 255); }
void vs_f64(double* p, const char* name) { vs_int(p, 8, name, 0, ~0ULL); }
void vs_assume(int c) { if (!c) { printf("assumption not met\n"); done(0); } }
void vs_assert(int c, const char* l) { if (!c) { printf("REPRODUCED: assertion violated: %s\n", l); done(1); } }
void vs_fail(const char* l) { printf("REPRODUCED: %s\n", l); done(1); }
void vs_reach(const char*) {}
void vs_known(const char* id) { printf("known finding %s\n", id); done(0); }
void vs_note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n"); }
int vs_thorough(void) { return thorough; }
uint64_t vs_concretize(uint64_t v) { return v; }
const char* vs_file(const char* name, void* data, size_t size)
{
    if (tmpd.empty()) { char t[] = "/tmp/vsreplayXXXXXX"; tmpd = mkdtemp(t); atexit(rmtmp); tmpfiles.reserve(100); }
    tmpfiles.push_back(tmpd + "/" + name);
    FILE* f = fopen(tmpfiles.back().c_str(), "wb"); fwrite(data, 1, size, f); fclose(f);
    return tmpfiles.back().c_str();
}
}
int main(int argc, char** argv)
{
    // replay HARNESS FILE [thorough]; FILE has lines "name<TAB>value"
    if (argc < 3) return 2;
    thorough = argc > 3 && !strcmp(argv[3], "thorough");
    std::ifstream f(argv[2]); std::string l;
    while (std::getline(f, l)) { auto t = l.rfind('\t'); if (t == std::string::npos || l[0] == '#') continue; in[l.substr(0, t)] = strtoull(l.c_str() + t + 1, nullptr, 10); }
    for (auto* h = hs; h; h = h->next) if (!strcmp(h->name, argv[1])) { if (h->setup) h->setup(); h->run(); printf("no violation\n"); return 0; }
    fprintf(stderr, "no such harness\n");
    return 2;
}
