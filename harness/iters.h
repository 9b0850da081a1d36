// Every iterator of a sequence of n elements obeys the iterator laws at every pair of positions, and the views of the
// sequence that are made of iterators (reverse, const) show the same elements.
#pragma once
#include "seq.h"
#include <iterator>
#include <stdexcept>
#include <concepts>
template <typename I> concept Wrapped1 = requires(I z) { z.wrapped_iterator(); } || requires(I z) { z.clone_to(nullptr); } || requires(I z) { z.clone(nullptr); };   // type-erased iterators: no postfix steps (they do not compile)
template <typename I> concept Wrapped = Wrapped1<I> || requires(I z) { requires Wrapped1<decltype(z.base())>; };
template <typename I> concept Random = std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<I>::iterator_category>;
template <typename I> static I at(I b, unsigned k) { while (k--) ++b; return b; }
template <typename I, typename F> static void laws(I b, I e, const uint8_t* a, unsigned n, F get) {
    unsigned i = nsx_choice(0, n, "i"), j = nsx_choice(0, n, "j"); const I x = at(b, i), y = at(b, j); auto here = [&](const I& z, unsigned k) { return k == n ? z == e : k < n && get(*z) == a[k]; };
    nsx_assert(at(b, n) == e && here(x, i) && here(y, j), "counting forward");
    nsx_assert((x == y) == (i == j), "equal exactly at the same position"); if constexpr (requires { x != y; }) nsx_assert((x != y) == (i != j), "unequal exactly at different positions");
    if constexpr (requires(I z) { { ++z } -> std::same_as<I&>; }) { if (i < n) { I w = x; I& r = ++w; nsx_assert(here(w, i + 1) && &r == &w, "++ goes to the next"); if constexpr (!Wrapped<I>) { I z = x; I o = z++; nsx_assert(o == x && here(o, i) && here(z, i + 1) && z == w, "postfix ++ returns the old position"); } } }
    else if (i < n) { I w = x; ++w; nsx_assert(here(w, i + 1) && here(x, i), "++ goes to the next"); }
    if constexpr (requires(I z) { { --z } -> std::same_as<I&>; }) { if (i > 0) { I w = x; I& r = --w; nsx_assert(here(w, i - 1) && &r == &w, "-- goes to the previous"); ++w; nsx_assert(w == x, "-- undoes ++"); if constexpr (!Wrapped<I>) { I z = x; I o = z--; nsx_assert(o == x && here(z, i - 1), "postfix -- returns the old position"); } } }
    else if constexpr (requires(I z) { --z; }) if (i > 0) { I w = x; --w; nsx_assert(here(w, i - 1) && here(x, i), "-- goes to the previous"); ++w; nsx_assert(w == x, "-- undoes ++"); }
    if constexpr (requires { x.operator->(); }) if (i < n) nsx_assert(&*x.operator->() == &*x, "-> and * agree");
    { I z = y; z = x; nsx_assert(z == x && here(z, i), "assignment"); I m(std::move(z)); nsx_assert(m == x && here(m, i), "move"); z = y; z = std::move(m); nsx_assert(z == x && here(z, i), "move assignment"); I& zz = z; z = zz; nsx_assert(here(z, i), "self assignment"); if constexpr (requires { I(); }) { I d; d = x; nsx_assert(d == x && here(d, i), "assignment to an iterator made from nothing"); } }
    if constexpr (requires { x - y; } && Random<I>) nsx_assert((long)(x - y) == (long)i - (long)j, "difference");
    if constexpr (requires(I z) { z += 1; } && Random<I>) {
        long d = (long)j - (long)i; I z = x; z += d; nsx_assert(z == y && here(z, j), "+="); z = x; z -= -d; nsx_assert(z == y && here(z, j), "-="); if constexpr (!Wrapped<I>) nsx_assert(x + d == y && x - -d == y, "+ and -"); if constexpr (requires { x[0]; } && !Wrapped<I>) if (j < n) nsx_assert(get(x[d]) == a[j], "subscript");
        if constexpr (requires { d + x; } && !Wrapped<I>) nsx_assert(d + x == y, "offset + iterator"); }
    if constexpr (requires { x < y; } && Random<I>) nsx_assert((x < y) == (i < j), "<"); if constexpr (requires { x <= y; } && Random<I>) nsx_assert((x <= y) == (i <= j), "<="); if constexpr (requires { x > y; } && Random<I>) nsx_assert((x > y) == (i > j), ">"); if constexpr (requires { x >= y; } && Random<I>) nsx_assert((x >= y) == (i >= j), ">=");
}
template <typename C, typename F> static void views(C& c, const uint8_t* a, unsigned n, F get) {
    const C& k = c; uint8_t rev[32]; for (unsigned i = 0; i < n; ++i) rev[i] = a[n - 1 - i];
    switch (nsx_choice(0, 7, "view")) {
    case 0: laws(c.begin(), c.end(), a, n, get); break;
    case 1: laws(k.begin(), k.end(), a, n, get); break;
    case 2: if constexpr (requires { c.cbegin(); c.cend(); }) laws(c.cbegin(), c.cend(), a, n, get); break;
    case 3: if constexpr (requires { c.rbegin(); c.rend(); }) laws(c.rbegin(), c.rend(), rev, n, get); break;
    case 4: if constexpr (requires { k.rbegin(); k.rend(); }) laws(k.rbegin(), k.rend(), rev, n, get); break;
    case 5: if constexpr (requires { k.crbegin(); k.crend(); }) laws(k.crbegin(), k.crend(), rev, n, get); break;
    case 6: { unsigned i = nsx_choice(0, n, "i"); auto it = at(c.begin(), i); typedef decltype(k.begin()) CI; if constexpr (requires { CI(it); }) { CI ci(it); nsx_assert(i == n ? ci == k.end() : get(*ci) == a[i], "a const iterator made from an iterator"); if constexpr (requires { ci == it; }) nsx_assert(ci == it, "compares with it"); if constexpr (requires(CI z) { z = it; }) { CI z = k.begin(); z = it; nsx_assert(z == ci, "assigned from it"); } } break; }
    case 7: {
        nsx_assert(k.size() == n && k.empty() == (n == 0), "size");
        if constexpr (requires { k.max_size(); }) nsx_assert(k.max_size() >= n, "max_size");
        if (n) { if constexpr (requires { k.front(); k.back(); }) nsx_assert(get(k.front()) == a[0] && get(k.back()) == a[n - 1] && get(c.front()) == a[0] && get(c.back()) == a[n - 1] && &k.front() == &c.front() && &k.back() == &c.back(), "front and back"); }
        if constexpr (requires { k[0]; }) for (unsigned i = 0; i < n; ++i) nsx_assert(get(k[i]) == a[i] && get(c[i]) == a[i] && &k[i] == &c[i], "subscript");
        if constexpr (requires { k.at(0); }) { for (unsigned i = 0; i < n; ++i) nsx_assert(get(k.at(i)) == a[i] && get(c.at(i)) == a[i], "at"); bool th = false, t2 = false; try { (void)k.at(n); } catch (...) { th = true; } try { (void)c.at(n); } catch (...) { t2 = true; } nsx_assert(th && t2, "at past the end throws"); }
        if constexpr (requires { k.data(); }) { auto d = k.data(); auto d2 = c.data(); for (unsigned i = 0; i < n; ++i) nsx_assert(get(d[i]) == a[i] && get(d2[i]) == a[i], "data"); }
        break; }
    }
    nsx_reach("iterators");
}
