// indexitor: a sequence in which every element has a width (and skips before/after it) in a second, "foreign" index.
#include "seq.h"
#include <neolib/core/indexitor.hpp>
#include <vector>
typedef neolib::indexitor<Tracked, unsigned> C;
typedef C::value_type VT;
typedef C::skip_type SK;
struct MV { uint8_t v, w, s0, s1; unsigned total() const { return (unsigned)w + s0 + s1; } };
typedef Model<MV, 32> M;
static void check(C& c, const M& m, bool find) {
    const C& cc = c;
    nsx_assert(c.size() == m.n && c.empty() == (m.n == 0), "size");
    unsigned f = 0; bool ok = true, fo = true, so = true;
    auto it = c.begin(); auto ci = cc.begin();
    for (unsigned i = 0; i < m.n; ++i, ++it, ++ci) {
        nsx_assert(it != c.end() && ci != cc.end(), "iteration does not end early");
        ok &= val(it->first) == m.a[i].v && it->second == m.a[i].w && val(ci->first) == m.a[i].v;
        nsx_assert(c.index(it) == i && c.index(ci) == i, "index(position)");
        auto jt = c.begin() + i; ok &= val(jt->first) == m.a[i].v && val(cc[i].first) == m.a[i].v && jt == it && jt - c.begin() == (long)i;
        fo &= c.foreign_index(ci) == f + m.a[i].s0;
        so &= c.skip_before(ci) == m.a[i].s0 && c.skip_after(ci) == m.a[i].s1;
        f += m.a[i].total();
    }
    nsx_assert(ok, "elements"); nsx_assert(it == c.end() && ci == cc.end(), "iteration ends");
    fo &= c.foreign_index(cc.end()) == f;
    nsx_assert(fo, "foreign index is the sum of the widths and skips before; end()'s is the total"); nsx_assert(so, "skips");
    for (unsigned i = m.n; i-- > 0;) { --it; ok &= val(it->first) == m.a[i].v; }
    nsx_assert(ok && it == c.begin(), "reverse iteration");
    if (m.n) nsx_assert(val(c.front().first) == m.a[0].v && val(c.back().first) == m.a[m.n - 1].v, "front and back");
    if (find) {
        unsigned q = nsx_range(0, 15, "query"); nsx_assume(q <= f);
        auto r = cc.find_by_foreign_index(q); auto r2 = c.find_by_foreign_index(q);
        unsigned s = 0, hit = m.n, start = 0;
        for (unsigned i = 0; i < m.n; ++i) { bool in = q >= s + m.a[i].s0 && q < s + m.a[i].s0 + m.a[i].w; hit = in ? i : hit; start = in ? s + m.a[i].s0 : start; s += m.a[i].total(); }
        unsigned got = (unsigned)(r.first - cc.begin());
        nsx_assert(got == hit, "find_by_foreign_index finds the element that covers the index");
        nsx_assert(got == m.n ? r.second == f : r.second == start, "find_by_foreign_index returns the element's foreign index");
        nsx_assert((unsigned)(r2.first - c.begin()) == got && r2.second == r.second, "const and non-const find agree");
        if (got < m.n) nsx_reach("found"); else nsx_reach("not-found");
    }
}
static MV fresh(bool skip, unsigned lo = 0) { MV m{nsx_u8("v"), (uint8_t)nsx_range(lo, 2, "w"), 0, 0}; if (skip) { m.s0 = nsx_range(0, 1, "s0"); m.s1 = nsx_range(0, 1, "s1"); } return m; }
static VT V(const MV& m) { return VT(Tracked(m.v), m.w); }
static SK S(const MV& m) { return SK(m.s0, m.s1); }
static bool step(C& c, M& m, bool sk) {
    unsigned n = m.n;
    switch (pick(0, 10, "op")) {
    case 0: { MV x = fresh(sk); unsigned p = pick(0, n, "pos"); auto it = c.insert(c.begin() + p, V(x), S(x)); m.insert(p, x); nsx_assert(it - c.begin() == (long)p && val(it->first) == x.v, "insert returns the new element"); nsx_reach("insert"); break; }
    case 1: { MV x = fresh(sk); unsigned p = pick(0, n, "pos"), k = pick(0, 3, "count"); auto it = c.insert(c.begin() + p, std::size_t(k), V(x), S(x)); m.insert(p, k, x); nsx_assert(it - c.begin() == (long)p, "insert(count) returns the position"); break; }
    case 2: { MV x = fresh(sk), y = fresh(sk); unsigned p = pick(0, n, "pos"); VT b[2] = {V(x), V(y)}; SK s[2] = {S(x), S(y)}; if (sk) { c.insert(c.begin() + p, b, b + 2, s, s + 2); } else c.insert(c.begin() + p, b, b + 2); m.insert(p, y); m.insert(p, x); nsx_reach("range"); break; }
    case 3: { if (!n) return false; unsigned p = pick(0, n - 1, "pos"); auto it = c.erase(c.begin() + p); m.erase(p, p + 1); nsx_assert(it - c.begin() == (long)p && (it == c.end()) == (p == m.n), "erase returns the next element"); if (p < m.n) nsx_assert(val(it->first) == m.a[p].v, "erase returns the next element"); nsx_reach("erase"); break; }
    case 4: { unsigned p = pick(0, n, "pos"), q = pick(p, n, "end"); auto it = c.erase(c.begin() + p, c.begin() + q); m.erase(p, q); nsx_assert(it - c.begin() == (long)p, "erase(range) returns the next element"); nsx_reach("erase-range"); break; }
    case 5: { MV x = fresh(sk); if (pick(0, 1, "end")) { c.push_front(V(x), S(x)); m.insert(0, x); } else { c.push_back(V(x), S(x)); m.insert(n, x); } break; }
    case 6: { if (!n) return false; if (pick(0, 1, "end")) { c.pop_front(); m.erase(0, 1); } else { c.pop_back(); m.erase(n - 1, n); } break; }
    case 7: { if (!n) return false; unsigned p = pick(0, n - 1, "pos"); MV x = fresh(sk); x.v = m.a[p].v; c.update_foreign_index(c.begin() + p, x.w, S(x)); m.a[p] = x; nsx_reach("update"); break; }
    case 8: { if (sk) return false; { C d(c); check(d, m, false); C e; MV x = fresh(false); e.push_back(V(x)); e = c; check(e, m, false); d.push_back(V(x)); e.swap(d); check(d, m, false); M k = m; k.insert(k.n, x); check(e, k, false); } nsx_reach("copy"); break; }
    case 9: { MV x = fresh(sk); unsigned k = pick(0, n + 2, "count"); c.resize(k, V(x), S(x)); while (m.n < k) m.push(x); m.n = k; break; }
    case 10: c.clear(); m.n = 0; break;
    }
    return true;
}
void nsx_main() {
    unsigned init = nsx_param(0, 3), steps = nsx_param(1, 1), lo = nsx_param(2, 0); bool sk = nsx_param(3, 0), find = nsx_param(4, 1);
    { C c; M m; check(c, m, false);
      unsigned k = pick(lo, init, "init");
      for (unsigned i = 0; i < k; ++i) { MV x = fresh(sk, 1); c.push_back(V(x), S(x)); m.push(x); }
      for (unsigned s = 0; s < steps; ++s) { if (!step(c, m, sk)) return; check(c, m, find && s + 1 == steps); } }
    nsx_assert(g_live == 0, "every element is destroyed exactly once");
    nsx_assert(nsx_live_heap() == 0, "all memory released");
}
