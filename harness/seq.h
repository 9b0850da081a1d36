// Reference sequence model and an ownership-tracking element type shared by the container harnesses.
#pragma once
#include <nsx.h>
#include <cstddef>
#include <new>
#include <utility>
#include <cstring>

inline long g_live = 0;      // tracked elements alive
// Every construction/assignment/destruction of an element is checked: no use of raw or destroyed storage, no
// double destruction, no bitwise relocation of a non-trivial element.
struct Tracked {
    uint8_t v; uint8_t state; // state 0xA5 alive, 0x5A dead
    Tracked* self;
    void born() { state = 0xA5; self = this; ++g_live; }
    void alive(const char* what) const { nsx_assert(state == 0xA5 && self == this, what); }
    Tracked() : v(0) { born(); }
    Tracked(uint8_t x) : v(x) { born(); }
    Tracked(const Tracked& o) : v(o.v) { o.alive("copied element is alive"); born(); }
    Tracked(Tracked&& o) : v(o.v) { o.alive("moved element is alive"); born(); o.v = 0xEE; }
    Tracked& operator=(const Tracked& o) { alive("assigned-to element is alive"); o.alive("copied element is alive"); v = o.v; return *this; }
    Tracked& operator=(Tracked&& o) { alive("assigned-to element is alive"); o.alive("moved element is alive"); if (this != &o) { v = o.v; o.v = 0xEE; } return *this; }
    ~Tracked() { alive("destroyed element is alive"); state = 0x5A; --g_live; }
    friend bool operator==(const Tracked& a, const Tracked& b) { a.alive("compared element is alive"); b.alive("compared element is alive"); return a.v == b.v; }
    friend bool operator<(const Tracked& a, const Tracked& b) { a.alive("compared element is alive"); b.alive("compared element is alive"); return a.v < b.v; }
    friend std::strong_ordering operator<=>(const Tracked& a, const Tracked& b) { a.alive("compared element is alive"); b.alive("compared element is alive"); return a.v <=> b.v; }
};
inline uint8_t val(const Tracked& t) { t.alive("element read is alive"); return t.v; }
inline uint8_t val(uint8_t v) { return v; }
inline uint32_t val(uint32_t v) { return v; }
inline int val(int v) { return v; }

// Positions may be symbolic: every update is a conditional move, so one path covers all positions the code under
// test does not itself distinguish.
template <typename V, unsigned CAP> struct Model {
    V a[CAP]; unsigned n = 0;
    void insert(unsigned p, V v) {
        nsx_assert(n < CAP, "harness capacity");
        for (unsigned i = n; i > 0; --i) { V sh = a[i - 1]; a[i] = i == n ? (i > p ? sh : v) : (i > p ? sh : i == p ? v : a[i]); }
        a[0] = p == 0 ? v : a[0]; ++n;
    }
    void insert(unsigned p, unsigned c, V v) { while (c--) insert(p, v); }
    void erase1(unsigned p) { for (unsigned i = 0; i + 1 < n; ++i) a[i] = i >= p ? a[i + 1] : a[i]; --n; }
    void erase(unsigned b, unsigned e) { unsigned k = (unsigned)nsx_concretize(e - b); while (k--) erase1(b); }
    void push(V v) { nsx_assert(n < CAP, "harness capacity"); a[n++] = v; }
    V at(unsigned p) const { V r = a[0]; for (unsigned i = 1; i < n; ++i) r = i == p ? a[i] : r; return r; }
};
inline unsigned pick(unsigned lo, unsigned hi, const char* name) { return lo == hi ? lo : (unsigned)nsx_choice(lo, hi, name); }       // one path per value
inline unsigned pos(unsigned lo, unsigned hi, const char* name) { return lo == hi ? lo : (unsigned)nsx_range(lo, hi, name); }          // symbolic

#define FIX(x) (x = (decltype(x))nsx_concretize(x))
