// tag_array: a sequence of tagged values; every element keeps its value and the tag it was inserted with.
#include "seq.h"
#include <neolib/core/tag_array.hpp>
#include <iterator>
#ifndef CAPA
#define CAPA 2
#endif
#ifndef CAPV
#define CAPV 3
#endif
template <typename T> struct tag {
    template <typename U> struct rebind { using type = tag<U>; };
    uint8_t id;
    tag(uint8_t i) : id(i) {}
    tag(T&, tag const& o) : id(o.id) {}
    bool operator==(const tag& o) const { return id == o.id; }
    bool operator!=(const tag& o) const { return id != o.id; }
};
typedef Tracked E;
typedef neolib::tag_array<tag<int>, E, CAPA, CAPV> C;
struct VT { uint8_t v, t; };
typedef Model<VT, 40> M;
template <typename CC> static void compare(CC& c, const M& m) {
    nsx_assert(c.size() == m.n && c.empty() == (m.n == 0), "size");
    auto it = c.begin(); bool ok = true, tg = true;
    for (unsigned i = 0; i < m.n; ++i, ++it) {
        nsx_assert(it != c.end(), "iteration does not end early");
        ok &= val(*it) == m.a[i].v; tg &= c.tag(it).id == m.a[i].t;
        auto jt = c.begin() + i; ok &= val(*jt) == m.a[i].v && val(c[i]) == m.a[i].v; tg &= c.tag(jt).id == m.a[i].t;
    }
    nsx_assert(it == c.end() && ok, "elements"); nsx_assert(tg, "tags");
    for (unsigned i = m.n; i-- > 0;) { --it; ok &= val(*it) == m.a[i].v; }
    nsx_assert(ok && it == c.begin(), "reverse iteration");
    if (m.n) nsx_assert(val(c.front()) == m.a[0].v && val(c.back()) == m.a[m.n - 1].v, "front and back");
}
static void check(C& c, const M& m) { compare(c, m); compare(const_cast<const C&>(c), m); }
using TT = decltype(std::declval<C>().tag(std::declval<C>().begin()));
typedef std::remove_cvref_t<TT> Tag;
static bool step(C& c, M& m) {
    unsigned n = m.n;
    switch (pick(0, 9, "op")) {
    case 0: { uint8_t v = nsx_u8("v"), t = pick(0, 1, "tag"); unsigned p = pos(0, n, "pos"); auto it = c.insert(Tag(t), c.begin() + p, E(v)); FIX(p); m.insert(p, VT{v, t}); nsx_assert((unsigned)(it - c.begin()) == p && val(*it) == v, "insert returns the new element"); nsx_reach("insert"); break; }
    case 1: { unsigned k = pick(0, 2 * CAPV, "count"); uint8_t b[2 * CAPV + 1], t = pick(0, 1, "tag"); nsx_bytes(b, k, "b"); unsigned p = pos(0, n, "pos"); auto it = c.insert(Tag(t), c.begin() + p, b, b + k); FIX(p); for (unsigned i = 0; i < k; ++i) m.insert(p + i, VT{b[i], t}); nsx_assert((unsigned)(it - c.begin()) == p, "insert(range) returns the position"); nsx_reach("range"); break; }
    case 2: { unsigned k = pick(0, CAPV, "count"); uint8_t v = nsx_u8("v"), t = pick(0, 1, "tag"); unsigned p = pos(0, n, "pos"); c.insert(Tag(t), c.begin() + p, std::size_t(k), E(v)); FIX(p); for (unsigned i = 0; i < k; ++i) m.insert(p, VT{v, t}); break; }
    case 3: { if (!n) return false; unsigned p = pos(0, n - 1, "pos"); auto it = c.erase(c.begin() + p); FIX(p); m.erase(p, p + 1); nsx_assert((unsigned)(it - c.begin()) == p, "erase returns the next element"); nsx_reach("erase"); break; }
    case 4: { unsigned p = pos(0, n, "pos"), q = pos(0, n, "end"); nsx_assume(p <= q); auto it = c.erase(c.begin() + p, c.begin() + q); FIX(p); FIX(q); m.erase(p, q); nsx_assert((unsigned)(it - c.begin()) == p, "erase returns the next element"); nsx_reach("erase-range"); break; }
    case 5: { uint8_t v = nsx_u8("v"), t = pick(0, 1, "tag"); c.push_front(Tag(t), E(v)); m.insert(0, VT{v, t}); break; }
    case 6: { if (!n) return false; if (pick(0, 1, "end")) { c.pop_front(); m.erase(0, 1); } else { c.pop_back(); m.erase(n - 1, n); } break; }
    case 7: { C d; uint8_t t = 1; d.push_back(Tag(t), E(3)); d = c; check(d, m); d.clear(); check(d, M()); nsx_reach("assign"); break; }
    case 8: c.clear(); m.n = 0; break;
    case 9: { if (!n) return false; unsigned i = pick(0, n - 1, "src"); uint8_t t = pick(0, 1, "tag"); unsigned p = pos(0, n, "pos"); c.insert(Tag(t), c.begin() + p, c[i]); FIX(p); m.insert(p, VT{m.a[i].v, t}); nsx_reach("alias"); break; }
    }
    check(c, m);
    return true;
}
void nsx_main() {
    unsigned init = nsx_param(0, 4), steps = nsx_param(1, 1), lo = nsx_param(2, 0);
    {
        C c; M m;
        check(c, m);
        unsigned k = pick(lo, init, "init");
        for (unsigned i = 0; i < k; ++i) { uint8_t v = nsx_u8("i"), t = pick(0, 1, "itag"); c.push_back(Tag(t), E(v)); m.push(VT{v, t}); }
        check(c, m);
        for (unsigned s = 0; s < steps; ++s) if (!step(c, m)) return;
    }
    nsx_assert(g_live == 0, "every element is destroyed exactly once");
    nsx_assert(nsx_live_heap() == 0, "all memory released");
}
