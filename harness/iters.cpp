// iterators and views of the containers
#include "iters.h"
#ifndef WHAT
#define WHAT 0
#endif
#if WHAT == 0
#include <neolib/core/gap_vector.hpp>
typedef neolib::gap_vector<Tracked, 4, 1> C;
#elif WHAT == 1
#include <neolib/core/segmented_array.hpp>
typedef neolib::segmented_array<Tracked, 3> C;
#elif WHAT == 2
#include <neolib/core/tag_array.hpp>
template <typename T> struct tag { template <typename U> struct rebind { using type = tag<U>; }; uint8_t id; tag(uint8_t i) : id(i) {} tag(T&, tag const& o) : id(o.id) {} bool operator==(const tag& o) const { return id == o.id; } bool operator!=(const tag& o) const { return id != o.id; } };
typedef neolib::tag_array<tag<int>, Tracked, 2, 3> C; typedef std::remove_cvref_t<decltype(std::declval<C>().tag(std::declval<C>().begin()))> Tag;
#elif WHAT == 3
#include <neolib/core/indexitor.hpp>
typedef neolib::indexitor<Tracked, unsigned> C;
#elif WHAT == 4
#include <neolib/core/vector.hpp>
typedef neolib::vector<Tracked> C;
#elif WHAT == 5
#include <neolib/core/list.hpp>
typedef neolib::list<Tracked> C;
#elif WHAT == 6
#include <neolib/core/deque.hpp>
typedef neolib::deque<Tracked> C;
#elif WHAT == 7
#include <neolib/core/static_vector.hpp>
typedef neolib::growable_static_vector<Tracked, 3, 100> C;
#elif WHAT == 8
#include <neolib/core/vecarray.hpp>
typedef neolib::vecarray<Tracked, 6> C;
#endif
template <typename X> static uint8_t gv(const X& x) { if constexpr (requires { x.first; }) return val(x.first); else return val(x); }
void nsx_main() {
    { C c; uint8_t a[32]; unsigned n = nsx_choice(nsx_param(1, 0), nsx_param(0, 5), "n");
    for (unsigned i = 0; i < n; ++i) { a[i] = nsx_u8("v"); for (unsigned k = 0; k < i; ++k) nsx_assume(a[i] != a[k]);
#if WHAT == 2
        c.push_back(Tag(i / 2 % 2), Tracked(a[i]));
#elif WHAT == 3
        c.push_back(C::value_type(Tracked(a[i]), 1 + i % 2));
#else
        c.push_back(Tracked(a[i]));
#endif
    }
    if (n && nsx_choice(0, 1, "edit")) { unsigned p = nsx_choice(0, n - 1, "erase"); c.erase(at(c.begin(), p)); for (unsigned k = p; k + 1 < n; ++k) a[k] = a[k + 1]; --n; }
    views(c, a, n, [](const auto& x) { return gv(x); }); }
    nsx_assert(g_live == 0 && nsx_live_heap() == 0, "everything released");
}
