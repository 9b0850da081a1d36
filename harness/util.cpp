// small utilities: counters, traversals, scope guards, iterator wrappers, enumerations
#include "seq.h"
#include <random>
static unsigned g_calls, g_grid;
template <> inline std::mt19937::result_type std::mt19937::operator()() { ++g_calls; nsx_assume(g_calls <= nsx_param(3, 5)); return g_grid ? (uint32_t)nsx_range(0, 15, "random") << 28 | 0xfffffff : nsx_u32("random"); } // every outcome of the generator, or every sixteenth of its range (which reaches every value of an interval of up to 16)
#include <neolib/core/random.hpp>
#include <neolib/core/bresenham_counter.hpp>
#include <neolib/core/scoped.hpp>
#include <neolib/core/recursion.hpp>
#include <neolib/core/zip_iterator.hpp>
#include <neolib/core/any_iterator.hpp>
#include <neolib/core/enum.hpp>
#include <list>
#include <vector>
using namespace neolib;
// ---- x[0..N-1] from start to end in equal steps, without fractions
template <typename C> static void steps_of(bool alt, bool two) {
    int n = (int)nsx_choice(1, nsx_param(1, 6), "number"); static const int ss[] = { 0, -100, 3 }; int s = two ? 0 : ss[nsx_choice(0, 2, "start")], e = nsx_param(2, 0) ? (int)(int16_t)nsx_u16("end") : (int)(int8_t)nsx_u8("end"); bool late = nsx_choice(0, 1, "init");
    C c; if (two) { if (late) c.init(e, n); else c = C(e, n); } else { if (late) c.init(s, e, n); else c = C(s, e, n); }
    int r = e - s, prev = 0; for (int i = 0; i < n; ++i) { int x = i % 2 ? (int)c : c(); if (i == 0) nsx_assert(x == s, "starts at the start"); if (i && i == n - 1) nsx_assert(x == e, "ends at the end"); int d = (x - s) * (n - 1) - r * i; nsx_assert(d < n - (n > 1) + (n == 1) && -d < n, "each value is within one of the exact one"); if (!alt) nsx_assert(2 * d <= n - 1 && -2 * d <= n - 1, "each value is the nearest to the exact one"); if (i) nsx_assert(r >= 0 ? x >= prev : x <= prev, "never turns back"); prev = x; } nsx_reach(alt ? "alt" : "bresenham"); if (r < 0) nsx_reach("descending");
}
// ---- random
static void range() {
    neolib::random r{ 1u }; static const uint32_t w[] = { 0, 1, 2, 5, 99, 255, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff }; uint32_t d = w[nsx_choice(0, 10, "width")], lo = nsx_u32("lo"); nsx_assume(lo <= 0xffffffffu - d); uint32_t hi = lo + d; uint32_t x = nsx_choice(0, 1, "how") ? r.get(lo, hi) : r(lo, hi); nsx_assert(x >= lo && x <= hi, "within the interval"); g_calls = 0; uint32_t y = nsx_choice(0, 1, "how") ? r.get(d) : r(d); nsx_assert(y <= d, "within the interval"); nsx_reach("range");
}
static void traverse() {
    g_grid = 1;     neolib::random r{ 1u }; unsigned n = nsx_choice(0, nsx_param(1, 7), "elements"); random_traversal t(r, n); bool twice = n < 2 && nsx_choice(0, 1, "again"); for (int k = 0; k <= (int)twice; ++k) { if (k) { g_calls = 0; t.reset(); } unsigned seen = 0, cnt = 0; while (!t.done()) { int x = t.next(); nsx_assert(x >= 0 && (unsigned)x < n, "an element"); unsigned bit = 1u << x; nsx_assert(!(seen & bit), "no element twice"); seen |= bit; ++cnt; nsx_assert(cnt <= n, "ends"); } nsx_assert(cnt == n && seen == (n ? (1u << n) - 1 : 0), "every element once"); nsx_assert(t.next() == -1, "nothing after the last"); } nsx_reach("traversal");
}
// ---- scope guards
struct RTag { static constexpr std::size_t RecursionLimit = 3; };
static int descend(unsigned k, unsigned& at) { recursion_limiter<RTag> l; ++at; nsx_assert(recursion_limiter<RTag>::depth() == at, "depth counts the open scopes"); int r = k ? descend(k - 1, at) : 7; --at; return r; }
static void recursion() {
    for (int t = 0; t < 3; ++t) { unsigned k = nsx_choice(0, 4, "depth"), at = 0; bool th = false; try { descend(k, at); } catch (const recursion_limiter<RTag>::too_deep&) { th = true; } nsx_assert(th == (k + 1 > 3), "too deep exactly when the limit is passed"); nsx_assert(recursion_limiter<RTag>::depth() == 0, "leaving every scope restores the depth"); if (th) nsx_reach("too deep"); }
    nsx_reach("recursion");
}
static void scopes() {
    bool f = nsx_u8("f") & 1, nf = nsx_u8("nf") & 1, of = f, ig = nsx_choice(0, 1, "ignore"), th = nsx_choice(0, 1, "throw"); uint32_t n = nsx_u32("n"), on = n; uint32_t o = nsx_u32("o"), oo = o, no = nsx_u32("no"); uint8_t a, b, *p = &a; unsigned ran = 0; long heap = nsx_live_heap(); Tracked* d = new Tracked(1); std::atomic<bool> af{ f };
    neolib::optional<uint32_t> op, op2; bool had = nsx_choice(0, 1, "had"); if (had) { op = oo; op2 = oo; }
    { auto fn = [&] { ++ran; }; auto body = [&] { scoped_flag s1{ f, nf }; scoped_counter<uint32_t> s2{ n }; scoped_pointer<uint8_t> s3{ p, &b }; scoped_deleter<Tracked> s4{ d }; scoped_cleanup<decltype(fn)> s5{ fn }; scoped_object<uint32_t> s6{ o, no }; scoped_atomic_flag s7{ af, nf };
#if OPT
        scoped_optional<uint32_t> s8{ op, no }; scoped_optional_if<uint32_t> s9{ op2, no }; nsx_assert(op.has_value() && *op == no && op2.has_value() && *op2 == (had ? oo : no), "set for the scope"); if (ig) { s8.ignore(); s9.ignore(); }
#endif
        nsx_assert(f == nf && af == nf && n == on + 1 && p == &b && o == no && ran == 0 && s1.saved() == of && s7.saved() == of && s6.saved() == oo, "set for the scope"); if (ig) { s1.ignore(); s2.ignore(); s3.ignore(); s4.ignore(); s5.ignore(); s6.ignore(); s7.ignore(); } if (th) throw 1; };
      try { body(); } catch (int) {} }
    if (!ig) nsx_assert(f == of && af == of && n == on && p == &a && o == oo && ran == 1 && d == nullptr && nsx_live_heap() == heap, "restored on leaving the scope, by return or by exception"); else { nsx_assert(f == nf && af == nf && n == on + 1 && p == &b && o == no && ran == 0 && d != nullptr, "ignored"); delete d; }
#if OPT
    nsx_assert(ig ? op.has_value() && *op == no && op2.has_value() && *op2 == (had ? oo : no) : op.has_value() == had && (!had || *op == oo) && op2.has_value() == had && (!had || *op2 == oo), "optionals restored");
#endif
    nsx_reach("scopes");
}
// ---- iterators
static void zips() {
    unsigned n = nsx_choice(0, 4, "n"); std::vector<uint8_t> a; std::vector<uint32_t> b; uint8_t ra[4]; uint32_t rb[4]; for (unsigned i = 0; i < n; ++i) { ra[i] = nsx_u8("a"); rb[i] = nsx_u32("b"); a.push_back(ra[i]); b.push_back(rb[i]); }
    typedef zip_iterator<std::vector<uint8_t>::iterator, std::vector<uint32_t>::iterator> Z; Z f(a.begin(), b.begin()), l(a.end(), b.end()); nsx_assert(l - f == (long)n && (f == l) == (n == 0) && (f != l) == (n != 0) && (f < l) == (n != 0), "distance and comparison");
    unsigned k = 0; for (Z i = f; i != l; ++i, ++k) nsx_assert(std::get<0>(*i) == ra[k] && std::get<1>(*i) == rb[k], "pairs of elements"); nsx_assert(k == n, "all"); k = 0; for (Z i = f; i != l; ++k) { Z o = i++; nsx_assert(o - f == (long)k && i - f == (long)k + 1, "postfix"); } k = n; for (Z i = l; i != f;) { --i; --k; nsx_assert(std::get<0>(*i) == ra[k] && std::get<1>(*i) == rb[k], "backwards"); } for (Z i = l; i != f;) { Z o = i--; nsx_assert(o - i == 1, "postfix --"); }
    if (n) { unsigned x = nsx_choice(0, n - 1, "x"), y = nsx_choice(0, n - 1, "y"); Z q = f + (long)x, w = l - (long)(n - x); nsx_assert(q == w && std::get<0>(*q) == ra[x] && std::get<1>(*q) == rb[x], "random access"); std::iter_swap(f + (long)x, f + (long)y); std::swap(ra[x], ra[y]); std::swap(rb[x], rb[y]); for (unsigned i = 0; i < n; ++i) nsx_assert(a[i] == ra[i] && b[i] == rb[i], "iter_swap swaps both"); std::get<0>(*q) = 5; std::get<1>(*q) = 77; nsx_assert(a[x] == 5 && b[x] == 77, "assignment through the pair"); }
    nsx_reach("zip");
}
struct Big { std::list<uint8_t>::iterator i; uint8_t pad[56 - 8 + 8]; bool operator==(const Big& o) const { return i == o.i; } Big& operator++() { ++i; return *this; } Big& operator--() { --i; return *this; } };
template <typename W, typename I> static void wrap(I b, I e, unsigned n) {
    long heap = nsx_live_heap();
    { I pos[3] = { b, b, b }; unsigned ix[3] = { 0, 0, 0 }; bool full[3] = { true, false, true }; W w[3] = { W(b), W(), W(b) };
    for (unsigned t = 0; t < 3; ++t) { unsigned i = nsx_choice(0, 2, "i"), j = nsx_choice(0, 2, "j"); switch (nsx_range(0, 7, "op")) {
        case 0: { bool th = false; try { if (!full[i] || ix[i] < n) { ++w[i]; ++pos[i]; ++ix[i]; } } catch (const typename W::is_empty&) { th = true; } nsx_assert(th == !full[i], "stepping nothing throws"); break; }
        case 1: if (full[i] && ix[i]) { --w[i]; --pos[i]; --ix[i]; } break;
        case 2: if (full[i] && ix[i] < n) { I was = pos[i]; W o = w[i]++; nsx_assert(static_cast<const I&>(o) == was, "postfix ++ gives the old position"); ++pos[i]; ++ix[i]; nsx_reach("postfix"); } break;
        case 3: if (full[i] && ix[i]) { I was = pos[i]; W o = w[i]--; nsx_assert(static_cast<const I&>(o) == was, "postfix -- gives the old position"); --pos[i]; --ix[i]; } break;
        case 4: w[i] = w[j]; pos[i] = pos[j]; ix[i] = ix[j]; full[i] = full[j]; break;
        case 5: { W c{ w[j] }; nsx_assert(c.empty() == !full[j] && (!full[j] || c == w[j]), "copy"); w[i] = c; pos[i] = pos[j]; ix[i] = ix[j]; full[i] = full[j]; break; }
        case 6: w[i].reset(); full[i] = false; break;
        case 7: w[i] = W(b); pos[i] = b; ix[i] = 0; full[i] = true; break; }
      for (unsigned k = 0; k < 3; ++k) { nsx_assert(w[k].empty() == !full[k] && w[k].something() == full[k] && w[k].template is<I>() == full[k] && !w[k].template is<int>(), "emptiness and type"); if (full[k]) { nsx_assert(static_cast<const I&>(w[k]) == pos[k], "position"); for (unsigned m = 0; m < 3; ++m) if (full[m]) nsx_assert((w[k] == w[m]) == (ix[k] == ix[m]) && (w[k] != w[m]) == (ix[k] != ix[m]), "equality is that of the wrapped iterators"); } } } }
    nsx_assert(nsx_live_heap() == heap, "no leak"); nsx_reach("wrap");
}
static void wraps() { std::list<uint8_t> l; for (unsigned i = 0; i < 2; ++i) l.push_back((uint8_t)i); if (nsx_param(1, 0) == 0) wrap<any_iterator>(l.begin(), l.end(), 2); else if (nsx_param(1, 0) == 1) wrap<any_const_iterator>(l.cbegin(), l.cend(), 2); else { Big a{ l.begin() }, b{ l.end() }; wrap<any_iterator>(a, b, 2); } }
// ---- enumerations
enum class Colour : uint16_t { Red = 1, Green = 2, Blue = 300 };
begin_declare_enum(Colour)
declare_enum_string(Colour, Red)
declare_enum_string(Colour, Green)
declare_enum_string_explicit(Colour, Blue, Dark blue)
end_declare_enum(Colour)
static const char* const names[3] = { "Red", "Green", "Dark blue" }; static const uint16_t vals[3] = { 1, 2, 300 };
static void enums() {
    uint16_t v = nsx_u16("v"); int k = v == 1 ? 0 : v == 2 ? 1 : v == 300 ? 2 : -1; Colour c = (Colour)v; bool must = nsx_choice(0, 1, "must");
    bool th = false; std::string s; try { s = nsx_choice(0, 1, "string") ? enum_to_string(c, must).to_std_string() : enum_to_string<Colour, std::string>(c, must); } catch (const bad_enum_value&) { th = true; }
    nsx_assert(th == (k < 0 && must), "a value without a name throws only when asked"); if (!th) { if (k >= 0) nsx_assert(s == names[k], "name of a value"); else { char e[9] = { '0', 'x', 0, 0, 0, 0, 'u', 0 }; for (int i = 0; i < 4; ++i) { unsigned d = (v >> (12 - 4 * i)) & 15; e[2 + i] = (char)(d < 10 ? '0' + d : 'A' + d - 10); } nsx_assert(s == e, "hexadecimal of a value without a name"); nsx_reach("hex"); } }
    if (k >= 0) { nsx_assert(string_to_enum<Colour>(std::string(names[k])) == c && string_to_enum<Colour>(neolib::string(names[k])) == c && *try_string_to_enum<Colour>(std::string(names[k])) == c, "name read back"); enum_t<Colour> e{ c }; i_enum_t<Colour>& ie = e; nsx_assert(ie.to_std_string() == names[k] && ie.value() == v && ie.value<Colour>() == c, "object form"); enum_t<Colour> f; i_enum_t<Colour>& jf = f; { neolib::string nm(names[k]); const i_string& inm = nm; jf.set_value(inm); } nsx_assert(f.value() == v, "set by name"); jf = ie; nsx_assert(jf == ie && f.value() == v, "set by name"); nsx_reach("named"); }
    nsx_reach("enum");
}
static void enumtext() {
    unsigned n = nsx_choice(0, nsx_param(1, 4), "length"); std::string t; for (unsigned i = 0; i < n; ++i) { t += (char)nsx_u8("c"); } int k = -1; for (int i = 0; i < 3; ++i) if (t == names[i]) k = i;
    bool th = false; Colour c{}; try { c = string_to_enum<Colour>(t); } catch (const bad_enum_string&) { th = true; } nsx_assert(th == (k < 0) && (th || (uint16_t)c == vals[k]), "only names are read"); auto o = try_string_to_enum<Colour>(t); nsx_assert(o.has_value() == (k >= 0) && (k < 0 || (uint16_t)*o == vals[k]), "only names are read"); enum_t<Colour> e{ Colour::Green }; i_enum_t<Colour>& ie = e; th = false; try { e.set_value(neolib::string(t)); } catch (const std::logic_error&) { th = true; } nsx_assert(th == (k < 0) && e.value() == (k < 0 ? 2 : vals[k]), "set by a text that is no name: refused, value kept"); if (k >= 0) nsx_reach("name"); else nsx_reach("no name");
}
extern "C" void nsx_main() {
    switch (nsx_param(0, 0)) { case 0: steps_of<bresenham_counter<int>>(false, false); break; case 1: steps_of<bresenham_counter_alt<int>>(true, false); break; case 2: steps_of<bresenham_counter<int>>(false, true); break; case 3: steps_of<bresenham_counter_alt<int>>(true, true); break;
    case 4: range(); break; case 5: traverse(); break; case 6: recursion(); break; case 7: scopes(); break; case 8: zips(); break; case 9: wraps(); break; case 10: enums(); break; case 11: enumtext(); break; }
}
