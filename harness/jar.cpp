// jar / std_vector_jar: a cookie names its item from insertion until removal, whatever happens to other items.
#include "shim.h"
#include "seq.h"
#include <neolib/core/jar.hpp>
#include <memory>
#if KIND == 0
typedef neolib::jar<Tracked> J; typedef neolib::cookie CK;
#elif KIND == 1
typedef neolib::std_vector_jar<Tracked> J; typedef neolib::cookie CK;
#elif KIND == 2
typedef neolib::small_jar<Tracked> J; typedef neolib::small_cookie CK;
#else
typedef neolib::small_std_vector_jar<Tracked> J; typedef neolib::small_cookie CK;
#endif
struct It { CK c; uint8_t v; };
struct Mod { It a[24]; unsigned n = 0;
    int find(CK c) const { for (unsigned i = 0; i < n; ++i) if (a[i].c == c) return (int)i; return -1; }
    void erase(CK c) { int i = find(c); a[i] = a[--n]; } };
static void check(J& j, const Mod& m, bool query = false) {
    const J& cj = j;
    nsx_assert(j.size() == m.n && j.empty() == (m.n == 0), "size"); 
    bool ok = true;
    for (unsigned i = 0; i < m.n; ++i) {
        nsx_assert(j.contains(m.a[i].c), "contains every live cookie");
        auto it = j.find(m.a[i].c); auto ci = cj.find(m.a[i].c);
        nsx_assert(it != j.end() && ci != cj.end(), "find of a live cookie");
        ok &= val(*it) == m.a[i].v && val(*ci) == m.a[i].v && val(j[m.a[i].c]) == m.a[i].v && val(cj[m.a[i].c]) == m.a[i].v;
        nsx_assert(&*it == &j[m.a[i].c], "find and [] agree");
        nsx_assert(j.item_cookie(*it) == m.a[i].c, "item_cookie is the cookie");
    }
    nsx_assert(ok, "a cookie refers to its own item");
    unsigned k = 0; uint32_t seen = 0;
    for (auto it = j.begin(); it != j.end(); ++it, ++k) { nsx_assert(k < m.n, "iteration visits each item once"); int f = m.find(j.item_cookie(*it)); nsx_assert(f >= 0 && !(seen >> f & 1), "iteration visits each item once"); seen |= 1u << f; nsx_assert(&j.at_index(k) == &*it, "at_index follows iteration"); }
    nsx_assert(k == m.n, "iteration visits each item once");
    if (query) { CK q = (CK)nsx_u32("query");                                 // any cookie at all
    bool live = false; uint8_t v = 0; for (unsigned i = 0; i < m.n; ++i) if (m.a[i].c == q) { live = true; v = m.a[i].v; }
    nsx_assert(cj.contains(q) == live, "contains(any cookie)");
    if (live) { nsx_assert(val(cj[q]) == v, "[](any live cookie)"); }
    else {
        nsx_assert(cj.find(q) == cj.end() && j.find(q) == j.end(), "find(stale cookie) is end()");
        bool threw = false; try { (void)cj[q]; } catch (const neolib::cookie_invalid&) { threw = true; } nsx_assert(threw, "[] of a stale cookie throws");
        threw = false; try { j.remove(q); } catch (const neolib::cookie_invalid&) { threw = true; } nsx_assert(threw, "remove of a stale cookie throws"); nsx_reach("stale");
    } }
    nsx_assert(g_live == (long)m.n, "live items");
}
static CK fresh(const Mod& m, CK c) { nsx_assert(c != CK{}, "a cookie handed out is not the null cookie"); nsx_assert(m.find(c) < 0, "a cookie handed out is not in use"); return c; }
static void step(J& j, Mod& m) {
    switch (nsx_choice(0, 8, "op")) {
    case 0: { nsx_tag("insert"); nsx_reach("insert"); uint8_t v = nsx_u8("v"); Tracked t(v); CK c = fresh(m, j.insert(t)); m.a[m.n++] = {c, v}; break; }
    case 1: { nsx_tag("emplace"); uint8_t v = nsx_u8("v"); CK c = fresh(m, j.emplace(v)); m.a[m.n++] = {c, v}; break; }
    case 2: { nsx_tag("reserve-add"); nsx_reach("add"); CK c = fresh(m, j.next_cookie()); CK d = fresh(m, j.next_cookie()); nsx_assert(c != d, "reserved cookies differ");
              uint8_t v = nsx_u8("v"); Tracked t(v); if (nsx_choice(0, 1, "swap")) { CK x = c; c = d; d = x; }
              auto it = j.add(c, t); nsx_assert(val(*it) == v, "add returns the item"); m.a[m.n++] = {c, v};
              bool threw = false; try { j.add(c, t); } catch (const neolib::cookie_already_added&) { threw = true; } nsx_assert(threw, "adding a live cookie again throws");
              nsx_assert(j.size() == m.n, "a refused add changes nothing"); nsx_assert(!j.contains(d), "a reserved cookie has no item yet"); j.return_cookie(d); break; }
    case 3: { if (!m.n) nsx_assume(false); nsx_tag("remove"); nsx_reach("remove"); unsigned i = pick(0, m.n - 1, "i"); CK c = m.a[i].c; auto next = j.find(c); ++next; bool last = next == j.end(); 
              auto r = j.remove(c); m.erase(c); nsx_assert(!j.contains(c), "a removed cookie is gone"); if (last) nsx_assert(r == j.end(), "remove of the last position returns end()"); else { nsx_assert(r != j.end(), "remove returns the next position"); nsx_assert(m.find(j.item_cookie(*r)) >= 0, "remove returns a live item"); } break; }
    case 4: { if (!m.n) nsx_assume(false); nsx_tag("remove-item"); unsigned i = pick(0, m.n - 1, "i"); CK c = m.a[i].c; j.remove(static_cast<const Tracked&>(j[c])); m.erase(c); nsx_assert(!j.contains(c), "a removed item is gone"); break; }
    case 5: { if (!m.n) nsx_assume(false); nsx_tag("erase"); nsx_reach("erase"); unsigned i = pick(0, m.n - 1, "i"); CK c = m.a[i].c; typename J::const_iterator it = static_cast<const J&>(j).find(c); j.erase(it); m.erase(c); nsx_assert(!j.contains(c), "an erased item is gone"); break; }
    case 6: { nsx_tag("clear"); nsx_reach("clear"); j.clear(); m.n = 0; break; }
    case 7: { nsx_tag("copy"); nsx_reach("copy"); { J k(j); unsigned n = m.n; g_live -= n; check(k, m); g_live += n; if (m.n) { k.remove(m.a[0].c); } k.emplace(uint8_t(9)); } check(j, m); { J k; k.emplace(uint8_t(3)); k = j; long n = m.n; g_live -= n; check(k, m); g_live += n; } break; }
    case 8: { nsx_tag("move"); J k(std::move(j)); check(k, m); nsx_assert(j.empty(), "moved-from jar is empty"); CK c = j.emplace(uint8_t(1)); nsx_assert(c != CK{} && val(j[c]) == 1, "a moved-from jar can be used again"); j = std::move(k); k.clear(); break; }
    }
}
void nsx_main() {
    unsigned n0 = (unsigned)nsx_param(0, 3), steps = (unsigned)nsx_param(1, 2), mn = (unsigned)nsx_param(2, 0);
    long h0 = nsx_live_heap();
    { J j; Mod m; unsigned n = pick(mn, n0, "n"); for (unsigned i = 0; i < n; ++i) { uint8_t v = nsx_u8("init"); CK c = fresh(m, j.emplace(v)); m.a[m.n++] = {c, v}; }
      for (unsigned s = 0; s < steps; ++s) step(j, m);
      check(j, m, true); }
    nsx_assert(g_live == 0, "every item destroyed"); nsx_assert(nsx_live_heap() == h0, "no memory leaked");
}
