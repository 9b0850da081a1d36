// Drives a sequence container through every bounded operation history and compares it with the reference model after
// every step.  Operations a container does not offer are skipped.
#pragma once
#include "seq.h"
#include <iterator>
#include <initializer_list>
#include <stdexcept>

#ifndef BIG
#define BIG 5          // counts up to BIG in insert(count) / insert(range)
#endif
enum Op { PUSH, INS, INSN, INSR, INSL, ERASE, ERASER, POP, RESIZE, CLEAR, COPY, MOVE, ASSIGN, RESERVE, SHRINK, DATA, EMPLACE, SWAP, ALIAS, ALIASN, PUSHF, POPF, PUSHALIAS, SELF, LASSIGN, RASSIGN, EMPLACEB, EMPLACEF, INSMOVE, CTORS, ABSTR, NOPS };

template <typename C, typename E, typename M, typename Tr> struct SeqDriver {
    template <typename CC> static void compare(CC& c, const M& m) {
        nsx_assert(c.size() == m.n, "size");
        nsx_assert(c.empty() == (m.n == 0), "empty");
        nsx_assert((unsigned)std::distance(c.begin(), c.end()) == m.n, "end() - begin() == size()");
        if constexpr (requires { c.capacity(); }) nsx_assert(c.capacity() >= c.size(), "capacity >= size");
        bool ok = true;
        if constexpr (requires { c[0]; }) { for (unsigned i = 0; i < m.n; ++i) ok &= val(c[i]) == m.a[i]; nsx_assert(ok, "elements by index"); }
        auto it = c.begin();
        for (unsigned i = 0; i < m.n; ++i, ++it) { nsx_assert(it != c.end(), "iteration does not end early"); ok &= val(*it) == m.a[i]; }
        nsx_assert(it == c.end(), "iteration ends at end()");
        nsx_assert(ok, "elements by iteration");
        if constexpr (Tr::bidir) {
            for (unsigned i = m.n; i-- > 0;) { --it; ok &= val(*it) == m.a[i]; }
            nsx_assert(ok && it == c.begin(), "elements by reverse iteration");
        }
        if constexpr (requires { c.rbegin(); }) {
            auto r = c.rbegin(); bool rok = true;
            for (unsigned i = m.n; i-- > 0; ++r) { nsx_assert(r != c.rend(), "reverse iterators do not end early"); rok &= val(*r) == m.a[i]; }
            nsx_assert(rok && r == c.rend(), "elements by reverse iterator");
        }
        if (m.n) {
            if constexpr (requires { c.front(); }) nsx_assert(val(c.front()) == m.a[0], "front");
            if constexpr (requires { c.back(); }) nsx_assert(val(c.back()) == m.a[m.n - 1], "back");
        }
    }
    static void check(C& c, const M& m) { compare(c, m); compare(const_cast<const C&>(c), m); }
    static void arith(C& c, const M& m) {
        if constexpr (Tr::random) {
            if (!m.n) return;
            unsigned i = pos(0, m.n, "ai"), j = pos(0, m.n, "aj");
            auto a = c.begin() + i, b = c.begin() + j;
            nsx_assert(a - b == (long)i - (long)j, "iterator difference");
            nsx_assert((a == b) == (i == j) && (a < b) == (i < j), "iterator order");
            nsx_assert(a + ((long)j - (long)i) == b, "iterator advance");
            nsx_assert(b - ((long)j - (long)i) == a, "iterator retreat");
            if (i < m.n) {
                nsx_assert(val(*a) == m.at(i), "iterator at index");
                nsx_assert(val(*(b + ((long)i - (long)j))) == m.at(i), "iterator moved to index");
                nsx_assert(val(b[(long)i - (long)j]) == m.at(i), "iterator subscript");
                if constexpr (Tr::at) nsx_assert(val(c.at(i)) == m.at(i), "at()");
            } else if constexpr (Tr::at) { bool threw = false; try { (void)c.at(i); } catch (const std::out_of_range&) { threw = true; } nsx_assert(threw, "at() past the end throws"); }
            nsx_reach("arith");
        }
    }
    static auto cit(C& c, unsigned p) { auto it = c.cbegin(); if constexpr (Tr::random) return it + p; else { p = (unsigned)nsx_concretize(p); while (p--) ++it; return it; } }
    template <typename It> static unsigned idx(C& c, It it) { return (unsigned)std::distance(c.begin(), it); }
    static bool room(const M& m, unsigned k) { return m.n + k <= Tr::cap; }
    static bool step(C& c, M& m, unsigned op) {
        unsigned n = m.n;
        switch (op) {
        case PUSH: { uint8_t v = nsx_u8("v"); if (!room(m, 1)) return false; c.push_back(E(v)); m.push(v); break; }
        case INS: { uint8_t v = nsx_u8("v"); if (!room(m, 1)) return false; unsigned p = pos(0, n, "pos"); E e(v); auto it = c.insert(cit(c, p), e); FIX(p); m.insert(p, v); nsx_assert(val(e) == v, "source unchanged by copy-insert"); nsx_assert(idx(c, it) == p && val(*it) == v, "insert returns the new element"); nsx_reach("insert"); break; }
        case INSN: if constexpr (requires(E e) { c.insert(c.cbegin(), std::size_t(1), e); }) { uint8_t v = nsx_u8("v"); unsigned k = pick(0, BIG + 1, "count"); if (!room(m, k)) return false; unsigned p = pos(0, n, "pos"); E e(v); auto it = c.insert(cit(c, p), std::size_t(k), e); FIX(p); m.insert(p, k, v); nsx_assert(idx(c, it) == p, "insert(count) returns the position"); if (k > BIG) nsx_reach("big-insert"); break; } else return false;
        case INSR: if constexpr (requires(uint8_t* b) { c.insert(c.cbegin(), b, b); }) { unsigned k = pick(0, BIG, "count"); if (!room(m, k)) return false; uint8_t b[BIG + 1]; nsx_bytes(b, k, "b"); unsigned p = pos(0, n, "pos"); auto it = c.insert(cit(c, p), b, b + k); FIX(p); for (unsigned i = 0; i < k; ++i) m.insert(p + i, b[i]); nsx_assert(idx(c, it) == p, "insert(range) returns the position"); nsx_reach("range-insert"); break; } else return false;
        case INSL: if constexpr (requires(std::initializer_list<E> l) { c.insert(c.cbegin(), l); }) { uint8_t v = nsx_u8("v"), w = nsx_u8("w"); if (!room(m, 2)) return false; unsigned p = pos(0, n, "pos"); auto it = c.insert(cit(c, p), { E(v), E(w) }); FIX(p); m.insert(p, w); m.insert(p, v); nsx_assert(idx(c, it) == p, "insert(list) returns the position"); break; } else return false;
        case ERASE: { if (!n) return false; unsigned p = pos(0, n - 1, "pos"); auto it = c.erase(cit(c, p)); FIX(p); m.erase(p, p + 1); nsx_assert(idx(c, it) == p, "erase returns the following element"); nsx_reach("erase"); break; }
        case ERASER: if constexpr (requires { c.erase(c.cbegin(), c.cend()); }) { unsigned p = pos(0, n, "pos"), q = pos(0, n, "end"); nsx_assume(p <= q); auto it = c.erase(cit(c, p), cit(c, q)); FIX(p); FIX(q); m.erase(p, q); nsx_assert(idx(c, it) == p, "erase(range) returns the following element"); nsx_reach("erase-range"); break; } else return false;
        case POP: if constexpr (requires { c.pop_back(); }) { if (!n) return false; c.pop_back(); m.erase(n - 1, n); break; } else return false;
        case PUSHF: if constexpr (requires(E e) { c.push_front(e); }) { uint8_t v = nsx_u8("v"); if (!room(m, 1)) return false; c.push_front(E(v)); m.insert(0, v); break; } else return false;
        case POPF: if constexpr (requires { c.pop_front(); }) { if (!n) return false; c.pop_front(); m.erase(0, 1); break; } else return false;
        case RESIZE: if constexpr (requires(E e) { c.resize(1, e); }) { unsigned k = pick(0, n + 2, "count"); if (k > Tr::cap) return false; uint8_t v = nsx_u8("v"); bool fill = pick(0, 1, "fill"); if (fill) c.resize(k, E(v)); else { c.resize(k); v = 0; } while (m.n < k) m.push(v); m.n = k; break; } else return false;
        case CLEAR: c.clear(); m.n = 0; break;
        case COPY: {
            { C d(c); check(d, m); nsx_assert(Tr::equal(d, c), "a copy compares equal"); if (room(m, 1)) { d.push_back(E(1)); nsx_assert(!Tr::equal(d, c), "different contents compare unequal"); check(c, m); } }
            { C f; f.push_back(E(2)); f.push_back(E(3)); f = c; check(f, m); f.clear(); check(c, m); }
            nsx_reach("copy"); break; }
        case MOVE: {
            C d(std::move(c)); check(d, m); if (room(m, 1)) d.push_back(E(9)), m.push(9); c.clear(); { M z; check(c, z); }
            c = std::move(d); check(c, m); d.clear(); { M z; check(d, z); } d.push_back(E(5)); nsx_assert(d.size() == 1, "moved-from object usable"); check(c, m); nsx_reach("move"); break; }
        case ASSIGN: if constexpr (requires(E e) { c.assign(std::size_t(1), e); }) { uint8_t v = nsx_u8("v"); unsigned k = pick(0, 3, "count"); c.assign(std::size_t(k), E(v)); m.n = 0; m.insert(0, k, v); break; } else return false;
        case RESERVE: if constexpr (requires { c.reserve(1); c.capacity(); }) { unsigned k = pick(0, BIG * 2, "cap"); if (k > Tr::cap) return false; c.reserve(k); nsx_assert(c.capacity() >= k, "reserve"); break; } else return false;
        case SHRINK: if constexpr (requires { c.shrink_to_fit(); }) { c.shrink_to_fit(); break; } else return false;
        case DATA: if constexpr (requires { c.data(); }) { auto d = c.data(); bool ok = true; for (unsigned i = 0; i < m.n; ++i) ok &= val(d[i]) == m.a[i]; nsx_assert(ok, "data() is contiguous"); nsx_reach("data"); break; } else return false;
        case EMPLACE: if constexpr (Tr::emplace && requires { c.emplace(c.cbegin(), uint8_t(1)); }) { uint8_t v = nsx_u8("v"); if (!room(m, 1)) return false; unsigned p = pos(0, n, "pos"); auto it = c.emplace(cit(c, p), v); FIX(p); m.insert(p, v); nsx_assert(idx(c, it) == p && val(*it) == v, "emplace returns the new element"); break; } else return false;
        case SWAP: if constexpr (requires { c.swap(c); }) { C d; uint8_t v = nsx_u8("v"); d.push_back(E(v)); c.swap(d); M o; o.push(v); check(c, o); check(d, m); m = o; break; } else return false;
        case ALIAS: if constexpr (Tr::alias) { if (!n || !room(m, 1)) return false; unsigned i = pick(0, n - 1, "src"), p = pos(0, n, "pos"); c.insert(cit(c, p), c[i]); FIX(p); m.insert(p, m.a[i]); nsx_reach("alias"); break; } else return false;
        case ALIASN: if constexpr (Tr::alias && requires(E e) { c.insert(c.cbegin(), std::size_t(1), e); }) { if (!n || !room(m, 2)) return false; unsigned i = pick(0, n - 1, "src"), p = pos(0, n, "pos"); c.insert(cit(c, p), std::size_t(2), c[i]); FIX(p); m.insert(p, 2, m.a[i]); break; } else return false;
        case PUSHALIAS: if constexpr (Tr::alias) { if (!n || !room(m, 1)) return false; unsigned i = pick(0, n - 1, "src"); c.push_back(c[i]); m.push(m.a[i]); break; } else return false;
        case SELF: { C& d = c; c = d; break; }
        case LASSIGN: if constexpr (requires(std::initializer_list<E> l) { c = l; }) { uint8_t v = nsx_u8("v"), w = nsx_u8("w"); unsigned k = pick(0, 3, "count"); if (k == 0) c = std::initializer_list<E>{}; else if (k == 1) c = { E(v) }; else if (k == 2) c = { E(v), E(w) }; else c = { E(v), E(w), E(v), E(v) }; m.n = 0; if (k > 0) m.push(v); if (k > 1) m.push(w); if (k > 2) { m.push(v); m.push(v); } break; } else return false;
        case RASSIGN: if constexpr (requires(uint8_t* b) { c.assign(b, b); }) { unsigned k = pick(0, 4, "count"); uint8_t b[5]; nsx_bytes(b, k, "b"); c.assign(b, b + k); m.n = 0; for (unsigned i = 0; i < k; ++i) m.push(b[i]); break; }
            else if constexpr (requires(std::initializer_list<E> l) { c.assign(l); }) { uint8_t v = nsx_u8("v"), w = nsx_u8("w"); c.assign({ E(v), E(w) }); m.n = 0; m.push(v); m.push(w); break; } else return false;
        case EMPLACEB: if constexpr (requires { c.emplace_back(uint8_t(1)); }) { uint8_t v = nsx_u8("v"); if (!room(m, 1)) return false; c.emplace_back(v); m.push(v); break; } else return false;
        case EMPLACEF: if constexpr (Tr::emplace && requires { c.emplace_front(uint8_t(1)); }) { uint8_t v = nsx_u8("v"); if (!room(m, 1)) return false; c.emplace_front(v); m.insert(0, v); break; } else return false;
        case INSMOVE: if constexpr (Tr::alias) { uint8_t v = nsx_u8("v"); if (!room(m, 1)) return false; unsigned p = pos(0, n, "pos"); auto it = c.insert(cit(c, p), E(v)); FIX(p); m.insert(p, v); nsx_assert(idx(c, it) == p, "insert returns the new element"); break; } else return false;
        case CTORS: {
            uint8_t v = nsx_u8("v"); unsigned k = pick(0, 4, "count");
            if constexpr (requires(E e) { C(std::size_t(1), e); }) { E e(v); C d(std::size_t(k), e); M z; z.insert(0, k, v); check(d, z); }
            if constexpr (requires(const uint8_t* b) { C(b, b); }) { uint8_t b[5]; nsx_bytes(b, k, "b"); C d(b, b + k); M z; for (unsigned i = 0; i < k; ++i) z.push(b[i]); check(d, z); if (room(z, 1)) { d.push_back(E(v)); z.push(v); check(d, z); } }
            if constexpr (requires(std::initializer_list<E> l) { C(l); }) { C d({ E(v), E(uint8_t(v + 1)) }); M z; z.push(v); z.push(v + 1); check(d, z); C e; e = d; check(e, z); }
            break; }
        case ABSTR: if constexpr (requires { typename C::abstract_type; }) {
            typedef typename C::abstract_type A; const A& a = c; M one; one.push(7);
            if constexpr (requires { C(a); }) { C d(a); check(d, m); d.push_back(E(7)); check(c, m); }
            if constexpr (requires(C d) { d = a; }) { C d; d.push_back(E(7)); d = a; check(d, m); d.clear(); check(c, m); }
            if constexpr (requires(C d) { static_cast<A&>(d).assign(a); }) { C d; d.push_back(E(7)); static_cast<A&>(d).assign(a); check(d, m); d.clear(); check(c, m); static_cast<A&>(c).assign(a); }
            if constexpr (requires(C d) { static_cast<A&>(d).swap(static_cast<A&>(c)); }) { C d; d.push_back(E(7)); static_cast<A&>(d).swap(static_cast<A&>(c)); check(d, m); check(c, one); m = one; }
            nsx_reach("abstract"); break; } else return false;
        }
        check(c, m);
        return true;
    }
    // params: max initial length, steps, min initial length, iterator arithmetic (1) or not, only this first op (-1 any)
    static void main() {
        unsigned init = nsx_param(0, 4), steps = nsx_param(1, 2), lo = nsx_param(2, 0);
        {
            C c; M m;
            check(c, m);
            unsigned k = pick(lo, init, "init");
            for (unsigned i = 0; i < k; ++i) { uint8_t v = nsx_u8("i"); c.push_back(E(v)); m.push(v); }
            check(c, m);
            for (unsigned s = 0; s < steps; ++s) if (!step(c, m, pick(0, NOPS - 1, "op"))) return;
            if (nsx_param(3, 0)) arith(c, m);
        }
        nsx_assert(g_live == 0, "every element is destroyed exactly once");
        nsx_assert(nsx_live_heap() == 0, "all memory released");
    }
};
struct SeqTraits {
    static constexpr bool bidir = true, random = true, at = false, alias = true, emplace = true;
    static constexpr unsigned cap = 60;
    template <typename C> static bool equal(const C& a, const C& b) { return a == b; }
};
