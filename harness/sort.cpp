// intrusive_sort: every input of bounded length over a small range of keys.
#include <nsx.h>
#include <neolib/core/vector.hpp>
#include <cmath>
#include <functional>
#include <iterator>
#include <neolib/core/intrusive_sort.hpp>
struct Item { unsigned key; unsigned id; };
static bool less(const Item& a, const Item& b) { return a.key < b.key; }
void nsx_main() {
    unsigned mode = (unsigned)nsx_param(0, 0), n = (unsigned)nsx_param(1, 5), top = (unsigned)nsx_param(2, 2), lo = (unsigned)nsx_param(3, 0);
    n = (unsigned)nsx_choice(lo ? lo : (mode ? n : 0), n, "n");
    Item in[40], a[42]; Item* v = a + 1; a[0] = { 9999, 1 }; unsigned swaps = 0;
    for (unsigned i = 0; i < n; ++i) { in[i] = { top ? (unsigned)nsx_range(0, top, "key") : nsx_u32("key"), i }; v[i] = in[i]; }
    v[n] = { 9998, 2 };
    auto swapper = [&](Item* x, Item* y) { nsx_assert(x >= v && x < v + n && y >= v && y < v + n, "only elements of the range are swapped"); Item t = *x; *x = *y; *y = t; ++swaps; };
    if (mode == 0) neolib::intrusive_sort(v, v + n, swapper, less);
    else neolib::intrusive_sort(v, v + n, swapper, [](const Item& x, const Item& y) { return y.key < x.key; });
    bool ok = true, perm = true; bool used[40] = {};
    for (unsigned i = 0; i + 1 < n; ++i) ok &= mode == 0 ? v[i].key <= v[i + 1].key : v[i + 1].key <= v[i].key;
    nsx_assert(ok, "the range is sorted");
    for (unsigned i = 0; i < n; ++i) { unsigned id = (unsigned)nsx_concretize(v[i].id); nsx_assert(id < n && !used[id], "no element is lost or duplicated"); used[id] = true; perm &= v[i].key == in[id].key; }
    nsx_assert(perm, "elements keep their contents"); nsx_assert(a[0].key == 9999 && v[n].key == 9998, "nothing outside the range is touched"); nsx_reach("sorted");
}
