// segmented_tree: an ordered tree; traversals, depths, counts and parent links follow the edit history.
#include "seq.h"
#include "iters.h"
#include <functional>
#include <neolib/core/segmented_tree.hpp>
#ifndef SEG
#define SEG 2
#endif
struct Val { uint8_t v, id; bool operator<(const Val& o) const { return v < o.v; } };
typedef neolib::segmented_tree<Val, SEG> T;
// model: nodes in pre-order with their depth; ids are unique and never reused
struct MN { uint8_t v, id, depth, skip; };
struct Mod {
    MN a[24]; unsigned n = 0;
    unsigned endOf(unsigned i) const { unsigned j = i + 1; while (j < n && a[j].depth > a[i].depth) ++j; return j; }
    int parent(unsigned i) const { for (int j = (int)i - 1; j >= 0; --j) if (a[j].depth + 1 == a[i].depth) return j; return -1; }
    void insert(unsigned p, MN m) { for (unsigned i = n; i > p; --i) a[i] = a[i - 1]; a[p] = m; ++n; }
    void eraseRange(unsigned p, unsigned q) { for (unsigned i = q; i < n; ++i) a[p + i - q] = a[i]; n -= q - p; }
};
static unsigned g_id;
template <typename TT> static auto nth(TT& t, unsigned i) { auto it = t.begin(); while (i--) ++it; return it; }
static void check(T& t, const Mod& m, bool skips) {
    const T& ct = t;
    nsx_assert(t.size() == m.n, "size() is the number of values"); nsx_assert(t.empty() == (m.n == 0), "empty()");
    bool ok = true;
    { auto it = t.begin(); auto ci = ct.begin();
      for (unsigned i = 0; i < m.n; ++i, ++it, ++ci) {
        nsx_assert(it != t.end() && ci != ct.end(), "traversal does not end early");
        ok &= (*it).id == m.a[i].id && (*it).v == m.a[i].v && (*ci).id == m.a[i].id;
        nsx_assert(it.depth() == m.a[i].depth && ci.depth() == m.a[i].depth, "depth");
        nsx_assert(it.descendent_count() == m.endOf(i) - i - 1, "descendent count");
        nsx_assert(it.children_skipped() == (bool)m.a[i].skip, "skip flag");
        int p = m.parent(i);
        nsx_assert(it.parent_is_root() == (p < 0), "parent is root");
        if (p >= 0) nsx_assert((*it.parent()).id == m.a[p].id && (*ci.cparent()).id == m.a[p].id, "parent link");
        unsigned j = i + 1; auto s = it.begin();                       // children, in order
        for (; s != it.end(); ++s, j = m.endOf(j)) { nsx_assert(j < m.endOf(i), "no extra children"); ok &= (*s).id == m.a[j].id; }
        nsx_assert(j == m.endOf(i), "every child listed");
      }
      nsx_assert(ok, "pre-order traversal gives the values"); nsx_assert(it == t.end() && ci == ct.end(), "traversal ends at end()");
      for (unsigned i = m.n; i-- > 0;) { --it; --ci; ok &= (*it).id == m.a[i].id && (*ci).id == m.a[i].id; }
      nsx_assert(ok && it == t.begin(), "reverse traversal gives the values backwards");
    }
    { unsigned j = 0; for (auto s = t.sbegin(); s != t.send(); ++s, j = m.endOf(j)) { nsx_assert(j < m.n, "top-level siblings end"); ok &= (*s).id == m.a[j].id; } nsx_assert(ok && j == m.n, "top-level siblings"); }
    if (skips) {
        unsigned vis[24], k = 0;
        for (unsigned i = 0; i < m.n; i = m.a[i].skip ? m.endOf(i) : i + 1) vis[k++] = i;
        unsigned j = 0; auto s = t.kbegin();
        for (; s != t.kend(); ++s, ++j) { nsx_assert(j < k, "skip traversal visits nothing hidden"); ok &= (*s).id == m.a[vis[j]].id; }
        nsx_assert(ok && j == k, "skip traversal visits every visible value");
        while (j-- > 0) { --s; ok &= (*s).id == m.a[vis[j]].id; }
        nsx_assert(ok && s == t.kbegin(), "reverse skip traversal");
        nsx_assert(t.ksize() == k, "ksize() is the number of values a skip traversal visits");
    }
}
static MN fresh(uint8_t depth) { return MN{nsx_u8("v"), (uint8_t)++g_id, depth, 0}; }
static Val V(const MN& m) { return Val{m.v, m.id}; }
static void grow(T& t, Mod& m) {                                        // append a child to any node (or to the root)
    unsigned p = pick(0, m.n, "under");
    if (p == m.n) { MN x = fresh(0); t.push_back(V(x)); m.insert(m.n, x); }
    else { MN x = fresh(m.a[p].depth + 1); t.push_back(nth(t, p), V(x)); m.insert(m.endOf(p), x); }
}
static bool step(T& t, Mod& m, bool skips) {
    switch (pick(0, skips ? 8 : 7, "op")) {
    case 0: grow(t, m); nsx_reach("append"); break;
    case 1: { unsigned p = pick(0, m.n, "under"); if (p == m.n) { MN x = fresh(0); t.push_front(V(x)); m.insert(0, x); } else { MN x = fresh(m.a[p].depth + 1); t.push_front(nth(t, p), V(x)); m.insert(p + 1, x); } nsx_reach("prepend"); break; }
    case 2: { if (!m.n) return false; unsigned p = pick(0, m.n - 1, "before"); MN x = fresh(m.a[p].depth); auto it = t.insert(T::const_sibling_iterator(nth(t, p)), V(x)); nsx_assert((*it).id == x.id, "insert returns the new value"); m.insert(p, x); nsx_reach("insert"); break; }
    case 3: { unsigned p = pick(0, m.n, "at-end-of"); if (p == m.n) { MN x = fresh(0); auto it = t.insert(t.csend(), V(x)); nsx_assert((*it).id == x.id, "insert returns the new value"); m.insert(m.n, x); } else { MN x = fresh(m.a[p].depth + 1); auto it = t.insert(nth(t, p).cend(), V(x)); nsx_assert((*it).id == x.id, "insert returns the new value"); m.insert(m.endOf(p), x); } break; }
    case 4: { if (!m.n) return false; unsigned p = pick(0, m.n - 1, "erase"), e = m.endOf(p); bool sib = e < m.n && m.a[e].depth == m.a[p].depth; uint8_t id = sib ? m.a[e].id : 0; if (e > p + 1) nsx_reach("erase-subtree"); auto it = t.erase(nth(t, p)); m.eraseRange(p, e); if (sib) nsx_assert((*it).id == id, "erase returns the next sibling"); nsx_reach("erase"); break; }
    case 5: { { T c(t); check(c, m, skips); Mod k = m; MN x = fresh(0); c.push_back(V(x)); k.insert(k.n, x); check(c, k, skips); check(t, m, skips); } { T d; d.push_back(Val{1, 200}); d = t; check(d, m, skips); T e(std::move(d)); check(e, m, skips); } nsx_reach("copy"); break; }
    case 6: t.clear(); m.n = 0; break;
    case 7: {
        t.sort();
        nsx_assert(t.size() == m.n, "sort keeps every value");
        Mod r; uint8_t seen[64] = {};
        for (auto it = t.begin(); it != t.end(); ++it) {
            nsx_assert(r.n < m.n, "sort adds nothing");
            Val x = *it; unsigned id = nsx_concretize(x.id); int o = -1; for (unsigned i = 0; i < m.n; ++i) if (m.a[i].id == id) o = i;
            nsx_assert(o >= 0 && !seen[id] && x.v == m.a[o].v, "sort permutes the values"); seen[id] = 1;
            nsx_assert(it.depth() == m.a[o].depth, "sort keeps depths");
            int p = m.parent(o); nsx_assert(it.parent_is_root() == (p < 0) && (p < 0 || (*it.parent()).id == m.a[p].id), "sort keeps every value under its parent");
            MN q = m.a[o]; r.insert(r.n, q);
        }
        for (unsigned i = 0; i < r.n; ++i) { unsigned e = r.endOf(i); if (e < r.n && r.a[e].depth == r.a[i].depth) nsx_assert(r.a[i].v <= r.a[e].v, "siblings are in order after sort"); }
        m = r; nsx_reach("sort"); break; }
    case 8: { if (!m.n) return false; unsigned p = pick(0, m.n - 1, "skip"); auto it = nth(t, p); if (m.a[p].skip) it.unskip_children(); else it.skip_children(); m.a[p].skip ^= 1; nsx_reach("skip"); break; }
    }
    check(t, m, skips);
    return true;
}
// every family of iterators of the tree, over a tree of any shape with any nodes' children skipped
template <typename B, typename E> static void lawsOf(B b, E e, const uint8_t* a, unsigned n) { laws(b, e, a, n, [](auto& x) { return x.id; }); }
template <typename TT> static void families(TT& t, const Mod& m) {
    uint8_t all[24], top[24], vis[24]; unsigned n = m.n, nt = 0, nv = 0;
    for (unsigned i = 0; i < n; ++i) all[i] = m.a[i].id;
    for (unsigned i = 0; i < n; i = m.endOf(i)) top[nt++] = m.a[i].id;
    for (unsigned i = 0; i < n; i = m.a[i].skip ? m.endOf(i) : i + 1) vis[nv++] = m.a[i].id;
    auto rev = [](const uint8_t* a, unsigned k, uint8_t* r) { for (unsigned i = 0; i < k; ++i) r[i] = a[k - 1 - i]; return (const uint8_t*)r; }; uint8_t r[24];
    const T& c = t;
    switch (pick(0, 10, "family")) {
    case 0: lawsOf(t.begin(), t.end(), all, n); break;
    case 1: lawsOf(t.cbegin(), t.cend(), all, n); break;
    case 2: lawsOf(t.rbegin(), t.rend(), rev(all, n, r), n); break;
    case 3: lawsOf(t.crbegin(), t.crend(), rev(all, n, r), n); break;
    case 4: lawsOf(t.sbegin(), t.send(), top, nt); break;
    case 5: lawsOf(t.csbegin(), t.csend(), top, nt); break;
    case 6: if (pick(0, 1, "const")) lawsOf(t.crsbegin(), t.crsend(), rev(top, nt, r), nt); else lawsOf(t.rsbegin(), t.rsend(), rev(top, nt, r), nt); break;
    case 7: lawsOf(t.kbegin(), t.kend(), vis, nv); break;
    case 8: lawsOf(t.ckbegin(), t.ckend(), vis, nv); break;
    case 9: if (pick(0, 1, "const")) lawsOf(t.crkbegin(), t.crkend(), rev(vis, nv, r), nv); else lawsOf(t.rkbegin(), t.rkend(), rev(vis, nv, r), nv); break;
    case 10: {                                                            // the children of any node, and what a const iterator says of it
        if (!n) return; unsigned i = pick(0, n - 1, "node"), k = 0; for (unsigned j = i + 1; j < m.endOf(i); j = m.endOf(j)) all[k++] = m.a[j].id;
        auto it = nth(t, i); auto ci = nth(c, i); typename T::const_iterator cv(it); typename T::const_sibling_iterator cs(it); typename T::const_skip_iterator ck(it);
        nsx_assert(cv == ci && !(cv != ci) && cs == ci && ck == ci && (*cv).id == m.a[i].id && ci->id == it->id && (*cs).v == m.a[i].v, "conversions keep the position");
        nsx_assert(ci.depth() == m.a[i].depth && ci.descendent_count() == m.endOf(i) - i - 1 && ci.children_skipped() == (bool)m.a[i].skip && ci.parent_is_root() == (m.parent(i) < 0), "what a const iterator says");
        if (m.parent(i) >= 0) { uint8_t p = m.a[m.parent(i)].id; nsx_assert((*ci.parent()).id == p && (*it.cparent()).id == p && (*cs.parent()).id == p, "parents"); }
        switch (pick(0, 7, "children")) {
        case 0: lawsOf(it.begin(), it.end(), all, k); break; case 1: lawsOf(it.cbegin(), it.cend(), all, k); break; case 2: lawsOf(ci.begin(), ci.end(), all, k); break; case 3: lawsOf(ci.cbegin(), ci.cend(), all, k); break;
        case 4: lawsOf(it.rbegin(), it.rend(), rev(all, k, r), k); break; case 5: lawsOf(it.crbegin(), it.crend(), rev(all, k, r), k); break; case 6: lawsOf(ci.rbegin(), ci.rend(), rev(all, k, r), k); break; case 7: lawsOf(ci.crbegin(), ci.crend(), rev(all, k, r), k); break; }
        break; }
    }
}
static void treeViews(T& t, Mod& m) {
    for (unsigned i = 0; i < m.n; ++i) if (m.endOf(i) > i + 1 && pick(0, 1, "skip?")) { nth(t, i).skip_children(); m.a[i].skip = 1; }
    if (pick(0, 1, "const tree")) families(static_cast<const T&>(t), m); else families(t, m);
    nsx_reach("views");
}
void nsx_main() {
    unsigned init = nsx_param(0, 3), steps = nsx_param(1, 1); bool skips = nsx_param(2, 0);
    { T t; Mod m;
      unsigned k = pick(nsx_param(3, 0), init, "init");
      for (unsigned i = 0; i < k; ++i) grow(t, m);
      check(t, m, skips);
      if (nsx_param(4, 0)) { treeViews(t, m); return; }
      for (unsigned s = 0; s < steps; ++s) if (!step(t, m, skips)) return; }
    nsx_assert(nsx_live_heap() == 0, "all memory released");
}
