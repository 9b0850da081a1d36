// Native side of the harness API: replays a list of (name, value) inputs produced by the solver.
#include "nsx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <string>
#include <vector>
#include <unistd.h>
#include <malloc.h>
namespace {
struct In { char* name; uint64_t v; };
In* ins; size_t nIns, pos; size_t nPar; int64_t par[16];
long liveHeap;
bool observing = true;
[[noreturn]] void diverge(const char* why, const char* name) {
    printf("NSX-DIVERGED %s %s (input %zu of %zu)\n", why, name, pos, nIns); fflush(stdout); _exit(77);
}
uint64_t next(const char* name) {
    if (pos >= nIns) diverge("no more inputs for", name);
    In& i = ins[pos++];
    if (strcmp(i.name, name)) diverge("input name mismatch", name);
    return i.v;
}
}
extern "C" {
uint8_t nsx_u8(const char* n) { return (uint8_t)next(n); }
uint16_t nsx_u16(const char* n) { return (uint16_t)next(n); }
uint32_t nsx_u32(const char* n) { return (uint32_t)next(n); }
uint64_t nsx_u64(const char* n) { return next(n); }
void nsx_bytes(void* p, uint64_t n, const char* nm) { char b[256]; for (uint64_t i = 0; i < n; ++i) { snprintf(b, sizeof b, "%s[%llu]", nm, (unsigned long long)i); ((uint8_t*)p)[i] = (uint8_t)next(b); } }
uint64_t nsx_choice(uint64_t, uint64_t, const char* n) { return next(n); }
uint64_t nsx_range(uint64_t, uint64_t, const char* n) { return next(n); }
uint64_t nsx_concretize(uint64_t v) { return v; }
void nsx_assume(bool c) { if (!c) diverge("assumption false", ""); }
void nsx_assert(bool c, const char* m) { if (!c) { printf("NSX-ASSERT %s\n", m); fflush(stdout); _exit(66); } }
void nsx_fail(const char* m) { printf("NSX-ASSERT %s\n", m); fflush(stdout); _exit(66); }
void nsx_reach(const char*) {}
void nsx_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
int64_t nsx_live_heap(void) { return liveHeap; }
uint64_t nsx_heap_size(const void* p) { return malloc_usable_size((void*)p); }
int nsx_is_symbolic(void) { return 0; }
int64_t nsx_param(uint64_t i, int64_t d) { return i < nPar ? par[i] : d; }
uint64_t nsx_steps(void) { return 0; }
void nsx_tag(const char* t) { printf("NSX-TAG %s\n", t); }
void nsx_print(const char* s) { printf("NSX-PRINT %s\n", s); }
void nsx_printu(const char* s, uint64_t v) { printf("NSX-PRINT %s %llu\n", s, (unsigned long long)v); }
}
// counting allocation functions (malloc underneath, so AddressSanitizer and valgrind still see every block)
static void* al(size_t n) { void* p = n > 0x10000000ul ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++liveHeap; return p; }
static void* ala(size_t n, size_t a) { void* p = n > 0x10000000ul ? nullptr : aligned_alloc(a, (n + a - 1) / a * a); if (!p) throw std::bad_alloc(); ++liveHeap; return p; }
#ifndef NSX_NO_NEW
void* operator new(size_t n) { return al(n); }
void* operator new[](size_t n) { return al(n); }
void* operator new(size_t n, std::align_val_t a) { return ala(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return ala(n, (size_t)a); }
void operator delete(void* p) noexcept { if (p) --liveHeap; free(p); }
void operator delete[](void* p) noexcept { if (p) --liveHeap; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --liveHeap; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --liveHeap; free(p); }
void operator delete(void* p, std::align_val_t) noexcept { if (p) --liveHeap; free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { if (p) --liveHeap; free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { if (p) --liveHeap; free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { if (p) --liveHeap; free(p); }
#endif
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    FILE* f = fopen(argv[1], "r"); if (!f) return 2;
    // format: lines "param <v>" and "in <value> <name>"
    char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        if (!strncmp(line, "param ", 6)) { if (nPar < 16) par[nPar++] = atoll(line + 6); }
        else if (!strncmp(line, "in ", 3)) {
            char* e; uint64_t v = strtoull(line + 3, &e, 10);
            ins = (In*)realloc(ins, (nIns + 1) * sizeof(In)); ins[nIns].name = strdup(*e == ' ' ? e + 1 : e); ins[nIns].v = v; ++nIns;
        }
    }
    free(line); fclose(f);
    liveHeap = 0;
    try { nsx_main(); }
    catch (std::exception& e) { printf("NSX-UNCAUGHT %s\n", e.what()); fflush(stdout); _exit(67); }
    catch (...) { printf("NSX-UNCAUGHT unknown\n"); fflush(stdout); _exit(67); }
    if (pos != nIns) { printf("NSX-DIVERGED unused inputs\n"); fflush(stdout); _exit(77); }
    printf("NSX-DONE\n"); fflush(stdout);
    _exit(0);
}
