// map, multimap, unordered_map, unordered_flat_map, set, multiset (through their abstract interfaces), mutable_set and mutable_multiset against a sorted reference.
#include "seq.h"
#include <stdexcept>
#include <neolib/core/map.hpp>
#include <neolib/core/set.hpp>
#include <neolib/core/unordered_map.hpp>
#include <neolib/core/string.hpp>
using namespace neolib;
#if STR
typedef neolib::string K; static K mk(uint8_t k) { return K(std::string(1, (char)k)); } template <class S> static uint8_t kv(const S& k) { nsx_assert(k.size() == 1, "key"); return (uint8_t)k[0]; }
#else
typedef uint8_t K; static K mk(uint8_t k) { return k; } static uint8_t kv(uint8_t k) { return k; }
#endif
static uint8_t key(const char* n) { if (KIND == 2 || KIND == 3) { static const uint8_t some[] = { 0, 1, 13, 26, 14 }; return some[nsx_choice(0, nsx_param(3, 3) - 1, n)]; } return nsx_u8(n); }   // hashed keys: a few, some of which share buckets
struct Elem { typedef uint8_t key_type; uint8_t k; Tracked p; Elem(uint8_t k, uint8_t v) : k(k), p(v) {} operator uint8_t() const { return k; } bool operator==(const Elem& o) const { return k == o.k && p == o.p; } std::strong_ordering operator<=>(const Elem& o) const { if (k != o.k) return k <=> o.k; return p <=> o.p; } };
#if KIND == 0
typedef map<K, Tracked> C; typedef i_map<maybe_abstract_t<K>, Tracked> A;
#elif KIND == 1
typedef multimap<K, Tracked> C; typedef i_multimap<maybe_abstract_t<K>, Tracked> A;
#elif KIND == 2
typedef unordered_map<K, Tracked> C; typedef i_unordered_map<maybe_abstract_t<K>, Tracked> A;
#elif KIND == 3
typedef unordered_flat_map<K, Tracked> C; typedef i_unordered_map<maybe_abstract_t<K>, Tracked> A;
#elif KIND == 4
typedef set<Elem> C; typedef i_set<Elem> A;
#elif KIND == 5
typedef multiset<Elem> C; typedef i_multiset<Elem> A;
#elif KIND == 6
typedef mutable_set<Elem> C; typedef C A;
#else
typedef mutable_multiset<Elem> C; typedef C A;
#endif
static const bool MAPPED = KIND <= 3, MULTI = KIND == 1 || KIND == 5 || KIND == 7, ORDERED = KIND != 2 && KIND != 3, MUTABLE = KIND >= 6;
template <class I> static uint8_t ikey(const I& i) { if constexpr (MAPPED) return kv((*i).first()); else return (*i).k; }
template <class I> static uint8_t ival(const I& i) { if constexpr (MAPPED) { nsx_assert(val(i->second()) == val((*i).second()), "-> and * agree"); return val(i->second()); } else return val(i->p); }
struct M { uint8_t k[8], v[8]; unsigned n = 0;
    unsigned lower(uint8_t x) const { unsigned i = 0; while (i < n && k[i] < x) ++i; return i; }
    unsigned upper(uint8_t x) const { unsigned i = 0; while (i < n && !(x < k[i])) ++i; return i; }
    bool has(uint8_t x) const { unsigned i = lower(x); return i < n && k[i] == x; }
    void insert(uint8_t x, uint8_t y) { if (!MULTI && has(x)) return; unsigned p = upper(x); for (unsigned i = n; i > p; --i) { k[i] = k[i - 1]; v[i] = v[i - 1]; } k[p] = x; v[p] = y; ++n; }
    void erase(unsigned p) { for (unsigned i = p; i + 1 < n; ++i) { k[i] = k[i + 1]; v[i] = v[i + 1]; } --n; } };
static int slotOf(const M& m, uint8_t k, uint8_t v) { for (unsigned i = 0; i < m.n; ++i) if (m.k[i] == k) { nsx_assert(ORDERED || m.v[i] == v, "value kept under its key"); return (int)i; } nsx_assert(false, "key not inserted"); return -1; }
template <class X> static void same(X& c, const M& m) {
    nsx_assert(c.size() == m.n && c.empty() == (m.n == 0), "size");
    unsigned i = 0; uint32_t seen = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++i) { nsx_assert(i < m.n, "iteration visits each element once"); if constexpr (ORDERED) nsx_assert(ikey(it) == m.k[i] && ival(it) == m.v[i], "iteration is in key order, equal keys in insertion order"); else { int s = slotOf(m, ikey(it), ival(it)); nsx_assert(!(seen >> s & 1), "iteration visits each element once"); seen |= 1u << s; } }
    nsx_assert(i == m.n, "iteration visits each element once");
    if constexpr (ORDERED) { unsigned r = m.n; for (auto it = c.rbegin(); it != c.rend(); ++it) { nsx_assert(r > 0, "reverse iteration"); --r; nsx_assert(ikey(it) == m.k[r] && ival(it) == m.v[r], "reverse iteration"); } nsx_assert(r == 0, "reverse iteration"); }
}
static void check(C& c, const M& m) { A& a = c; const A& ca = c; same(a, m); same(ca, m); nsx_assert(g_live == (long)m.n, "live elements"); }
template <class X> static auto insert(X& a, uint8_t k, uint8_t v) { if constexpr (MAPPED) { if (nsx_choice(0, 1, "pair")) { neolib::pair<const K, Tracked> p{ mk(k), Tracked(v) }; return a.insert(p); } Tracked t(v); return a.insert(mk(k), t); } else { Elem e(k, v); return a.insert(e); } }
template <class X> static auto find(X& a, uint8_t k) { if constexpr (MAPPED) return a.find(mk(k)); else if constexpr (!MUTABLE) { Elem e(k, 0); return a.find(e); } else { if (nsx_choice(0, 1, "bykey")) return a.find(k); Elem e(k, 0); return a.find(e); } }
template <class I> static void at(const char* what, I i, I end, bool there, uint8_t k) { nsx_assert((i == end) == !there, what); if (there) nsx_assert(ikey(i) == k, what); }
template <class C, class A> static void history(unsigned steps) {
    long heap = nsx_live_heap(), live = g_live;
    { C c; A& a = c; const A& ca = c; M m; unsigned ops = nsx_param(2, 0xFFFF);
    for (unsigned t = 0; t < steps; ++t) {
        unsigned op = nsx_choice(0, 9, "op"); nsx_assume(ops >> op & 1);
        switch (op) {
        case 0: { nsx_tag("insert"); uint8_t k = key("k"), v = nsx_u8("v"); bool had = m.has(k); auto i = insert(a, k, v); m.insert(k, v); nsx_assert(ikey(i) == k, "insert returns the element"); if (MULTI || !had) nsx_assert(ival(i) == v, "insert returns the new element"); nsx_reach(had ? "again" : "new"); break; }
        case 1: { nsx_tag("find"); uint8_t k = key("q"); bool has = m.has(k); at("find", find(a, k), a.end(), has, k); at("find (const)", find(ca, k), ca.end(), has, k);
                  if constexpr (MAPPED && ORDERED || MUTABLE) { auto key = [&] { if constexpr (MAPPED) return mk(k); else return k; }(); unsigned lo = m.lower(k), up = m.upper(k); auto l = a.lower_bound(key); auto u = a.upper_bound(key); auto b = a.begin(); for (unsigned i = 0; i < m.n; ++i, ++b) { if (i == lo) nsx_assert(l == b, "lower_bound"); if (i == up) nsx_assert(u == b, "upper_bound"); } if (lo == m.n) nsx_assert(l == a.end(), "lower_bound"); if (up == m.n) nsx_assert(u == a.end(), "upper_bound");
                      auto cl = ca.lower_bound(key); auto cu = ca.upper_bound(key); auto cb = ca.begin(); for (unsigned i = 0; i < m.n; ++i, ++cb) { if (i == lo) nsx_assert(cl == cb, "lower_bound (const)"); if (i == up) nsx_assert(cu == cb, "upper_bound (const)"); } }
                  nsx_reach(has ? "found" : "absent"); break; }
        case 2: { nsx_assume(m.n > 0); nsx_tag("erase"); unsigned p = pick(0, m.n - 1, "p"); auto i = a.begin(); for (unsigned q = 0; q < p; ++q) ++i; uint8_t k = ikey(i); auto nx = i; ++nx; bool last = nx == a.end(); uint8_t nk = last ? 0 : ikey(nx); int s = ORDERED ? (int)p : slotOf(m, k, ival(i)); typename A::iterator r = a.erase(i); m.erase((unsigned)s); nsx_assert((r == a.end()) == last, "erase returns the next position"); if (!last) nsx_assert(ikey(r) == nk, "erase returns the next position"); nsx_reach("erase"); break; }
        case 3: { nsx_tag("erase range"); if constexpr (ORDERED) { unsigned p = pick(0, m.n, "p"), e = pick(p, m.n, "e"); auto i = a.begin(); for (unsigned q = 0; q < p; ++q) ++i; auto j = i; for (unsigned q = p; q < e; ++q) ++j; typename A::iterator r = a.erase(i, j); for (unsigned q = p; q < e; ++q) m.erase(p); auto b = a.begin(); for (unsigned q = 0; q < p; ++q) ++b; nsx_assert(r == b, "erase returns the next position"); } else { a.erase(a.begin(), a.end()); m.n = 0; } break; }
        case 4: { nsx_tag("operator[]"); if constexpr (MAPPED && !MULTI) { uint8_t k = key("k"), v = nsx_u8("v"); bool had = m.has(k); Tracked& x = a[mk(k)]; if (had) nsx_assert(val(x) == m.v[m.lower(k)], "operator[] finds"); else { nsx_assert(val(x) == 0, "operator[] adds a default value"); m.insert(k, 0); } nsx_assert(&x == &a.at(mk(k)) && &x == &ca.at(mk(k)), "at and operator[] agree"); x = Tracked(v); m.v[m.lower(k)] = v; nsx_reach("index"); } break; }
        case 5: { nsx_tag("at"); if constexpr (MAPPED && !MULTI) { uint8_t k = key("k"); bool th = false, th2 = false; uint8_t got = 0; try { got = val(a.at(mk(k))); } catch (const std::out_of_range&) { th = true; } try { (void)ca.at(mk(k)); } catch (const std::out_of_range&) { th2 = true; } nsx_assert(th == !m.has(k) && th2 == th, "at throws for an absent key"); if (!th) nsx_assert(got == m.v[m.lower(k)], "at"); } break; }
        case 6: { nsx_tag("emplace"); if constexpr (MAPPED) { uint8_t k = key("k"), v = nsx_u8("v"); bool had = m.has(k); typename C::value_type& e = c.emplace(mk(k), v); m.insert(k, v); nsx_assert(kv(e.first()) == k, "emplace returns the element"); if (!had || MULTI) nsx_assert(val(e.second()) == v, "emplace returns the new element"); else nsx_assert(val(e.second()) == m.v[m.lower(k)], "emplace keeps the element already there"); } break; }
        case 7: { nsx_tag("write"); nsx_assume(m.n > 0); unsigned p = pick(0, m.n - 1, "p"); uint8_t v = nsx_u8("v"); auto i = a.begin(); for (unsigned q = 0; q < p; ++q) ++i; int s = ORDERED ? (int)p : slotOf(m, ikey(i), ival(i)); if constexpr (MAPPED) i->second() = Tracked(v); else i->p = Tracked(v); m.v[s] = v; break; }
        case 8: { nsx_tag("clear"); if (nsx_choice(0, 1, "self")) { a.clear(); m.n = 0; } else if constexpr (!MUTABLE) a = ca; break; }
        case 9: { nsx_tag("copies"); nsx_reach("copies"); { C d{ c }; same(d, m); C e; uint8_t k = key("k"), v = nsx_u8("v"); insert(e, k, v); if (KIND != 3 || m.n) { e = c; same(e, m); } C f; insert(f, k, v); if constexpr (!MUTABLE) { A& fa = f; fa = ca; same(f, m); fa.assign(ca); same(f, m); C g(ca); same(g, m); if constexpr (ORDERED) nsx_assert(fa == ca && ca == fa, "a copy is equal"); }
                    if constexpr (MAPPED) { nsx_assert(f == c || MUTABLE, "a copy is equal"); C o; insert(o, k, v); bool eq = m.n == 1 && m.k[0] == k && m.v[0] == v; nsx_assert((o == c) == eq, "equality");
                        if constexpr (ORDERED) { int ex = m.n == 0 ? 1 : k != m.k[0] ? (k < m.k[0] ? -1 : 1) : v != m.v[0] ? (v < m.v[0] ? -1 : 1) : m.n == 1 ? 0 : -1; auto r = o <=> c; nsx_assert((r < 0) == (ex < 0) && (r > 0) == (ex > 0) && (r == 0) == (ex == 0), "ordering is lexicographic"); const A& oa = o; auto r2 = oa <=> ca; nsx_assert((r2 < 0) == (ex < 0) && (r2 > 0) == (ex > 0), "ordering through the interface"); } }
                    C h(std::move(d)); same(h, m); C x; insert(x, k, v); x = std::move(h); same(x, m); } break; }
        }
        check(c, m);
    } }
    nsx_assert(g_live == live && nsx_live_heap() == heap, "everything is destroyed and no memory is leaked"); nsx_reach("history");
}
template <class C> static void lists() { // initializer lists and iterator ranges
    uint8_t k[3], v[3]; for (int i = 0; i < 3; ++i) { k[i] = key("k"); v[i] = nsx_u8("v"); } M m; for (int i = 0; i < 3; ++i) m.insert(k[i], v[i]);
    { if constexpr (MAPPED) { typedef neolib::pair<const K, Tracked> P; C c{ P{ mk(k[0]), Tracked(v[0]) }, P{ mk(k[1]), Tracked(v[1]) }, P{ mk(k[2]), Tracked(v[2]) } }; check(c, m); }
    else { { C c{ Elem(k[0], v[0]), Elem(k[1], v[1]), Elem(k[2], v[2]) }; check(c, m); } Elem e[] = { Elem(k[0], v[0]), Elem(k[1], v[1]), Elem(k[2], v[2]) }; C d(e, e + 3); same(d, m); } }
    nsx_reach("list");
}
extern "C" void nsx_main() { if (nsx_param(0, 0) == 0) history<C, A>(nsx_param(1, 2)); else lists<C>(); }
