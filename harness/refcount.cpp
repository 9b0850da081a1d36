// ref_ptr, weak_ref_ptr, reference_counted and lifetime under operation histories, against a counting model.
#include <nsx.h>
#include <neolib/core/reference_counted.hpp>
#include <neolib/core/lifetime.hpp>
using namespace neolib;
static const int N = 6, S = 3; static int gDead[N], gDouble; static uint32_t gId[N];
struct i_node : i_reference_counted { typedef i_node abstract_type; virtual uint32_t id() const = 0; virtual ref_ptr<i_node>& next() = 0; };
struct i_other { virtual ~i_other() = default; virtual int other() const = 0; };
struct Node : reference_counted<i_node>, i_other { int n; uint32_t ident; ref_ptr<i_node> nx; Node(int n) : n(n), ident(gId[n] = nsx_u32("id")) {} ~Node() { if (gDead[n]++) gDouble = 1; } uint32_t id() const override { return ident; } int other() const override { return n + 100; } ref_ptr<i_node>& next() override { return nx; } };
typedef ref_ptr<i_node> R; typedef weak_ref_ptr<i_node> WP;
struct Model { int made = 0, slot[S] = { -1, -1, -1 }, next[N], cnt[N], weak[2] = { -1, -1 }; bool dead[N], pin[N];
    Model() { for (int i = 0; i < N; ++i) { next[i] = -1; cnt[i] = 0; dead[i] = false; pin[i] = false; } }
    void add(int o) { if (o >= 0) ++cnt[o]; }
    void drop(int o) { if (o < 0) return; if (--cnt[o] <= 0 && !pin[o]) die(o); }
    void die(int o) { dead[o] = true; for (int w = 0; w < 2; ++w) if (weak[w] == o) weak[w] = -2; int x = next[o]; next[o] = -1; drop(x); }
    void set(int& where, int to) { int old = where; add(to); where = to; drop(old); } };
static R* slots[S]; static WP* weaks[2]; static Node* raw[N];
static void check(Model& m) {
    nsx_assert(!gDouble, "nothing is destroyed twice");
    for (int i = 0; i < m.made; ++i) { nsx_assert((gDead[i] != 0) == m.dead[i], m.dead[i] ? "an object is destroyed when its last owner lets go" : "an object lives while it has an owner or is pinned"); if (!m.dead[i]) { nsx_assert(raw[i]->use_count() == m.cnt[i], "use count"); int x = m.next[i]; nsx_assert(raw[i]->nx.ptr() == (x < 0 ? nullptr : static_cast<i_node*>(raw[x])), "link"); } }
    for (int s = 0; s < S; ++s) { R& r = *slots[s]; int o = m.slot[s]; nsx_assert(r.valid() == (o >= 0) && r.ptr() == (o < 0 ? nullptr : static_cast<i_node*>(raw[o])) && r.managed_ptr() == r.ptr(), "owner refers to its object"); if (o >= 0) nsx_assert(r->id() == gId[o] && (*r).id() == gId[o] && r.use_count() == m.cnt[o] && r.unique() == (m.cnt[o] == 1) && r.reference_counted(), "owner queries"); else { bool th = false; try { *r; } catch (R::no_object&) { th = true; } nsx_assert(th, "dereferencing nothing throws"); } }
    for (int w = 0; w < 2; ++w) { int o = m.weak[w]; WP& p = *weaks[w]; nsx_assert(p.expired() == (o < 0) && p.valid() == (o >= 0) && p.ptr() == (o < 0 ? nullptr : static_cast<i_node*>(raw[o])), "a weak pointer knows whether its object is alive"); if (o < 0) { bool th = false; try { *p; } catch (WP::no_object&) { th = true; } nsx_assert(th, "dereferencing an expired weak pointer throws"); } }
}
static void history(unsigned steps, unsigned mask) {
    for (int i = 0; i < N; ++i) { gDead[i] = 0; raw[i] = 0; } gDouble = 0; long heap = nsx_live_heap();
    { R a, b, c; slots[0] = &a; slots[1] = &b; slots[2] = &c; WP w0, w1; weaks[0] = &w0; weaks[1] = &w1; Model m;
    auto make = [&](int s) { int k = m.made++; Node* n = new Node(k); raw[k] = n; if (s == 0) *slots[s] = R(n); else slots[s]->reset(n); m.set(m.slot[s], k); };
    make(0); make(1);
    for (unsigned t = 0; t < steps; ++t) {
        static const unsigned char opsA[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8 }, opsB[] = { 1, 3, 6, 9, 10, 11, 12, 13, 14 }, opsC[] = { 1, 2, 3, 15, 16, 17, 18, 19, 20 }, opsD[] = { 1, 3, 21, 22, 23, 24, 25, 26, 27, 28, 9 };
        unsigned op = (mask == 0 ? opsA : mask == 1 ? opsB : mask == 2 ? opsC : opsD)[nsx_range(0, mask == 3 ? 10 : 8, "op")]; int i = (int)nsx_range(0, S - 1, "slot"), j = (op >= 1 && op <= 2) || op == 6 || op == 7 || (op >= 15 && op <= 18) || (op >= 21 && op <= 24) || op == 27 ? (int)nsx_choice(0, S - 1, "other") : (op >= 9 && op <= 14) || op == 25 ? (int)nsx_choice(0, 1, "weak") : 0; R &r = *slots[i], &q = *slots[j]; WP& w = *weaks[j & 1]; int o = m.slot[i];
        switch (op) {
        case 0: if (m.made < N) make(i); break;
        case 1: r = q; m.set(m.slot[i], m.slot[j]); break;
        case 2: r = std::move(q); if (i != j) { int x = m.slot[j]; m.slot[j] = -1; int old = m.slot[i]; m.slot[i] = x; m.drop(old); } break;
        case 3: if (nsx_choice(0, 1, "null")) r = nullptr; else r.reset(); m.set(m.slot[i], -1); break;
        case 4: if (o >= 0) { r = r->next(); m.set(m.slot[i], m.next[o]); } break;
        case 5: if (o >= 0) { r = std::move(r->next()); int x = m.next[o]; m.next[o] = -1; m.slot[i] = x; m.drop(o); } break;
        case 6: if (o >= 0) { r->next() = q; m.set(m.next[o], m.slot[j]); } break;
        case 7: if (o >= 0) { r->next() = std::move(q); int x = m.slot[j], old = m.next[o]; m.slot[j] = -1; m.next[o] = x; m.drop(old); } break;
        case 8: if (o >= 0) { bool th = false; i_node* p = 0; try { p = r.release(); } catch (i_reference_counted::too_many_references&) { th = true; } nsx_assert(th == (m.cnt[o] != 1), "release succeeds exactly for a sole owner"); if (!th) { nsx_assert(p == raw[o] && p->use_count() == 0 && !r, "release gives the object up"); R again{ p }; *slots[i] = again; } } break;
        case 9: w = r; m.weak[j] = o; break;
        case 10: w = *weaks[1 - j]; m.weak[j] = m.weak[1 - j]; break;
        case 11: w.reset(); m.weak[j] = -1; break;
        case 12: if (m.weak[j] >= 0) { R strong{ *w }; int x = m.weak[j]; nsx_assert(strong.use_count() == m.cnt[x] + (m.cnt[x] > 0), "a strong pointer from a live object counts"); r = R{ w.ptr() }; m.set(m.slot[i], x); } break;
        case 13: if (o >= 0) { raw[o]->pin(); m.pin[o] = true; } break;
        case 14: for (int k = 0; k < m.made; ++k) if (m.pin[k] && !m.dead[k]) { m.pin[k] = false; raw[k]->unpin(); if (m.cnt[k] <= 0) m.die(k); break; } break;
        case 15: { R copy{ q }; nsx_assert(copy.ptr() == q.ptr() && copy.use_count() == (m.slot[j] < 0 ? 0 : m.cnt[m.slot[j]] + 1), "a copy owns too"); r = copy; m.set(m.slot[i], m.slot[j]); break; }
        case 16: { R moved{ std::move(q) }; nsx_assert(!q.valid() && !q.managing(), "moved from"); int x = m.slot[j]; m.slot[j] = -1; nsx_assert(moved.use_count() == (x < 0 ? 0 : m.cnt[x]), "a move does not count"); int old = m.slot[i]; r = std::move(moved); m.slot[i] = x; m.drop(old); break; }
        case 17: { auto d = dynamic_pointer_cast<Node>(q); nsx_assert(d.valid() == (m.slot[j] >= 0), "cast"); if (d.valid()) nsx_assert(d->other() == m.slot[j] + 100 && d.use_count() == m.cnt[m.slot[j]] + 1, "the cast pointer owns too"); r = d; m.set(m.slot[i], m.slot[j]); break; }
        case 18: { auto d = static_pointer_cast<Node>(std::move(q)); int x = m.slot[j]; m.slot[j] = -1; int old = m.slot[i]; r = std::move(d); m.slot[i] = x; m.drop(old); break; }
        case 19: if (o >= 0) { const R& cr = r; ref_ptr<Node> d{ *raw[o] }; const i_ref_ptr<i_node>& ab = cr; R viaAbstract{ ab }; nsx_assert(viaAbstract.use_count() == m.cnt[o] + 2, "every owner counts"); } break;
        case 21: { i_node *pi = r.ptr(), *pj = q.ptr(); const R& cr = r; nsx_assert((r == q) == (pi == pj) && (r != q) == (pi != pj) && (r < q) == (pi < pj) && (cr == pj) == (pi == pj) && (pj == cr) == (pi == pj) && (cr != pj) == (pi != pj) && (pj != cr) == (pi != pj) && (cr < pj) == (pi < pj) && (pj < cr) == (pj < pi) && (r == nullptr) == (pi == nullptr) && (r != nullptr) == (pi != nullptr) && (bool)r == (pi != nullptr), "owners compare as the objects they refer to"); break; }
        case 22: { int how = (int)nsx_choice(0, 5, "how"), x = m.slot[j]; bool mv = how & 1; R d; auto cast = [&](auto f) { if (mv) { m.slot[j] = -1; d = f(std::move(q)); nsx_assert(!q.valid(), "moved from"); } else d = f(q); };
            if (how < 2) cast([](auto&& z) { return const_pointer_cast<i_node>(std::forward<decltype(z)>(z)); }); else if (how < 4) cast([](auto&& z) { return reinterpret_pointer_cast<i_node>(std::forward<decltype(z)>(z)); }); else if (!mv) { auto k = static_pointer_cast<Node>(q); nsx_assert(!k.valid() || (k->n == x && k.use_count() == m.cnt[x] + 1), "the cast pointer owns too"); d = k; } else if (x >= 0) { auto k = dynamic_pointer_cast<Node>(std::move(q)); m.slot[j] = -1; nsx_assert(k.valid() && k->other() == x + 100 && !q.valid(), "cast"); d = std::move(k); nsx_assert(!k.valid(), "moved from"); } else mv = false;
            int old = m.slot[i]; if (mv) { r = std::move(d); m.slot[i] = x; m.drop(old); } else { d.reset(); if (x >= 0) nsx_assert(q.valid() && q.use_count() == m.cnt[x], "copying leaves the original"); } break; }
        case 23: { int how = (int)nsx_choice(0, 3, "how"), x = m.slot[j]; const i_ref_ptr<i_node>& ab = q; R d; if (how == 0) d = static_pointer_cast<i_node>(ab); else if (how == 1) d = const_pointer_cast<i_node>(ab); else if (how == 2) d = reinterpret_pointer_cast<i_node>(ab); else d = dynamic_pointer_cast<i_node>(ab); nsx_assert(d.use_count() == (x < 0 ? 0 : m.cnt[x] + 1), "the cast pointer owns too"); r = d; m.set(m.slot[i], x); break; }
        case 24: { int how = (int)nsx_choice(0, 4, "how"), x = m.slot[j]; ref_ptr<Node> k = static_pointer_cast<Node>(q); if (how == 0) r = k; else if (how == 1) { r = std::move(k); nsx_assert(!k.valid(), "moved from"); } else if (how == 2) { R c{ k }; nsx_assert(c.use_count() == (x < 0 ? 0 : m.cnt[x] + 2), "owns too"); r = c; } else if (how == 3) { R c{ std::move(k) }; nsx_assert(!k.valid() && c.use_count() == (x < 0 ? 0 : m.cnt[x] + 1), "moved"); r = c; } else r = k.as<i_node>(); m.set(m.slot[i], x); break; }
        case 25: { int how = (int)nsx_choice(0, 5, "how"), x = m.weak[j]; if (how == 0) { w = nullptr; m.weak[j] = -1; } else if (how == 1) { bool no = false, bad = false; try { w.release(); } catch (WP::no_object&) { no = true; } catch (WP::bad_release&) { bad = true; } nsx_assert(no == (x < 0) && bad == (x >= 0), "a weak pointer owns nothing to release"); } else if (how == 2) { i_node* p = w.detach(); nsx_assert(p == (x < 0 ? nullptr : static_cast<i_node*>(raw[x])), "detach"); m.weak[j] = -1; } else if (how == 3) { if (o >= 0) { WP k{ *r }; WP k2{ k }; nsx_assert(k.ptr() == r.ptr() && k2.ptr() == r.ptr() && !k.reference_counted() && k.use_count() == 0 && !k.unique() && k->id() == gId[o], "a weak pointer does not own"); w = k2; m.weak[j] = o; } } else if (how == 4) { const i_ref_ptr<i_node>& ab = r; WP k{ ab }; nsx_assert(k.ptr() == r.ptr(), "from an owner"); w = ab; m.weak[j] = o; } else if (o >= 0) { if (nsx_choice(0, 1, "two")) w.reset(r.ptr(), r.managed_ptr()); else w.reset(r.ptr()); m.weak[j] = o; } break; }
        case 26: if (m.made < N) { int how = (int)nsx_choice(0, 2, "how"), k = m.made++; if (how == 0) { auto p = make_ref<Node>(k); raw[k] = p.ptr(); nsx_assert(p.use_count() == 1, "one owner"); r = p; } else if (how == 1) { r = make_ref<Node, i_node>(k); raw[k] = static_cast<Node*>(r.ptr()); } else { r = make_abstract_ref<Node>(k); raw[k] = static_cast<Node*>(r.ptr()); } m.set(m.slot[i], k); } break;
        case 27: { static_cast<i_ref_ptr<i_node>&>(r) = static_cast<const i_ref_ptr<i_node>&>(q); m.set(m.slot[i], m.slot[j]); break; }
        case 28: if (o >= 0) { i_node* p = r.detach(); nsx_assert(p == raw[o] && !r.valid() && !r.managing() && p->use_count() == m.cnt[o], "detaching keeps the count"); m.slot[i] = -1; p->release(); m.drop(o); } break;
        case 20: if (o >= 0) { r.reset(r.ptr()); r.reset(r.ptr(), r.managed_ptr()); } break;
        }
        check(m);
    }
    for (int k = 0; k < m.made; ++k) if (m.pin[k] && !m.dead[k]) { m.pin[k] = false; raw[k]->unpin(); if (m.cnt[k] <= 0) m.die(k); }
    for (int k = 0; k < m.made; ++k) if (!m.dead[k]) { m.add(k); R hold{ raw[k] }; raw[k]->nx = nullptr; m.set(m.next[k], -1); hold.reset(); m.drop(k); }   // break cycles
    check(m); }
    for (int i = 0; i < N; ++i) nsx_assert(gDead[i] == (raw[i] != 0), "in the end everything is destroyed"); nsx_assert(nsx_live_heap() == heap, "no memory is leaked"); nsx_reach("history");
}
// destroyed and destroying flags
static void lifetimes(unsigned steps) {
    long heap = nsx_live_heap(); int st = (int)nsx_range(0, 1, "initial");
    { lifetime<>* l = new lifetime<>(st == 0 ? lifetime_state::Creating : lifetime_state::Alive); lifetime<>* l2 = new lifetime<>(); destroyed_flag d{ *l }, e{ *l2 }; destroying_flag g{ *l }; int de = 1; // which object e watches: 1 = l2 (alive)
    auto ck = [&] { nsx_assert(d.is_creating() == (st == 0) && d.is_alive() == (st == 1) && d.is_destroying() == (st == 2) && d.is_destroyed() == (st == 3) && (bool)d == (st == 3) && (bool)g == (st == 2), "a flag shows the state of the object it watches"); nsx_assert((bool)e == (de == 0 && st == 3), "another flag"); if (l) nsx_assert(l->is_creating() == (st == 0) && l->is_alive() == (st == 1) && l->is_destroying() == (st == 2) && l->is_destroyed() == (st == 3) && (int)l->object_state() == st, "state"); };
    ck();
    for (unsigned t = 0; t < steps; ++t) { bool th = false;
        switch (nsx_range(0, 6, "op")) {
        case 0: if (l) { try { l->set_alive(); } catch (i_lifetime::not_creating&) { th = true; } nsx_assert(th == (st != 0), "only an object being created becomes alive"); if (!th) st = 1; } break;
        case 1: if (l) { try { l->set_destroying(); } catch (i_lifetime::already_destroyed&) { th = true; } nsx_assert(th == (st == 3), "a destroyed object is not destroyed again"); if (!th) st = 2; } break;
        case 2: if (l) { l->set_destroyed(); st = 3; } break;
        case 3: if (l) { delete l; l = 0; st = 3; } break;
        case 4: e = d; de = 0; break;
        case 5: { destroyed_flag f{ d }; nsx_assert((bool)f == (st == 3), "copy"); e = std::move(f); de = 0; break; }
        case 6: if (l) { e = destroyed_flag{ *l2 }; de = 1; } break;
        } ck(); }
    delete l; l = 0; st = 3; ck(); if (de == 1) nsx_assert(!e, "alive"); delete l2; if (de == 1) nsx_assert((bool)e, "destroyed"); }
    nsx_assert(nsx_live_heap() == heap, "no memory is leaked"); nsx_reach("lifetime");
}
// owners that look at a part of their object (aliasing), and owners of an object that is not counted
struct Part : reference_counted<i_node> { uint32_t ident = 0; ref_ptr<i_node> nx; uint32_t id() const override { return ident; } ref_ptr<i_node>& next() override { return nx; } };
struct Whole : Node { Part part; Whole(int n) : Node(n) { part.pin(); part.ident = ~ident; } };
static void aliasing(unsigned steps) {
    for (int i = 0; i < N; ++i) { gDead[i] = 0; raw[i] = 0; } gDouble = 0; long heap = nsx_live_heap();
    { Node local{ 5 }; Whole* w[5] = {}; int made = 0, dead[5] = {}; { R a, b, c; R* sl[S] = { &a, &b, &c }; int obj[S] = { -1, -1, -1 }, al[S] = { 0, 0, 0 };   // obj 5: the local one, never counted
    auto cnt = [&](int o) { int k = 0; for (int s = 0; s < S; ++s) k += obj[s] == o; return k; };
    auto look = [&](int o, int alias) -> i_node* { return o < 0 ? nullptr : o == 5 ? static_cast<i_node*>(&local) : alias ? static_cast<i_node*>(&w[o]->part) : static_cast<i_node*>(w[o]); };
    auto whole = [&](int o) -> i_node* { return look(o, 0); };
    auto ck = [&](const R& r, int o, int alias, int extra) { nsx_assert(r.ptr() == look(o, alias) && r.managed_ptr() == whole(o) && r.valid() == (o >= 0) && r.managing() == (o >= 0), "an owner refers to what it was given and manages the whole object"); nsx_assert(r.reference_counted() == (o >= 0 && o != 5), "counted"); nsx_assert(r.use_count() == (o >= 0 && o != 5 ? cnt(o) + extra : 0), "use count"); if (o >= 0) nsx_assert(r->id() == (alias ? ~gId[o] : gId[o]), "reads the part"); };
    auto create = [&](int s) { w[made] = new Whole(made); *sl[s] = R(w[made]); obj[s] = made++; al[s] = 0; };
    create(0); create(1); b = R{ b, &w[1]->part }; al[1] = 1;
    for (unsigned t = 0; t < steps; ++t) {
        unsigned op = (unsigned)nsx_range(0, 12, "op"); int i = (int)nsx_range(0, S - 1, "slot"), j = op < 8 ? (int)nsx_choice(0, S - 1, "other") : 0; R &r = *sl[i], &q = *sl[j]; int o = obj[j], f = al[j];
        auto gone = [&] { if (i != j) { obj[j] = -1; al[j] = 0; } };
        switch (op) {
        case 0: r = q; obj[i] = o; al[i] = f; break;
        case 1: if (i == j) break; gone(); r = std::move(q); obj[i] = o; al[i] = f; break;
        case 2: { const i_ref_ptr<i_node>& ab = q; r = ab; obj[i] = o; al[i] = f; break; }
        case 3: { const i_ref_ptr<i_node>& ab = q; R k{ ab }; ck(k, o, f, 1); r = k; obj[i] = o; al[i] = f; break; }
        case 4: if (o >= 0 && o != 5) { R k{ q, look(o, !f) }; ck(k, o, !f, 1); r = k; obj[i] = o; al[i] = !f; } break;
        case 5: if (o >= 0 && o != 5) { R k{ std::move(q), look(o, !f) }; gone(); if (i == j) { obj[i] = -1; al[i] = 0; } nsx_assert(!q.valid() && !q.managing(), "moved from"); ck(k, o, !f, 1); r = std::move(k); obj[i] = o; al[i] = !f; } break;
        case 6: if (o >= 0 && o != 5) { const i_ref_ptr<i_node>& ab = q; R k{ ab, look(o, !f) }; ck(k, o, !f, 1); r = std::move(k); obj[i] = o; al[i] = !f; } break;
        case 7: if (o >= 0 && o != 5) { r.reset(look(o, !f), whole(o)); obj[i] = o; al[i] = !f; } break;
        case 8: if (made < 5) create(i); break;
        case 9: r = R{ static_cast<i_node&>(local) }; obj[i] = 5; al[i] = 0; break;
        case 10: if (nsx_choice(0, 1, "null")) r = nullptr; else r.reset(); obj[i] = -1; al[i] = 0; break;
        case 11: if (obj[i] >= 0 && obj[i] != 5) { auto d = dynamic_pointer_cast<Whole>(r); nsx_assert(d.valid() == !al[i], "cast"); if (d.valid()) nsx_assert(d.use_count() == cnt(obj[i]) + 1, "the cast pointer owns too"); } break;
        case 12: if (obj[i] >= 0 && obj[i] != 5) { int c = cnt(obj[i]); bool th = false; i_node* p = 0; try { p = r.release(); } catch (i_reference_counted::too_many_references&) { th = true; } nsx_assert(th == (c != 1), "release succeeds exactly for a sole owner"); if (!th) { nsx_assert(p == whole(obj[i]) && !r.valid() && !r.managing(), "release gives the whole object up"); al[i] = 0; R again{ p }; r = again; } } break;
        }
        nsx_assert(!gDouble && !gDead[5], "nothing is destroyed twice, nor what is not counted");
        for (int k = 0; k < made; ++k) { bool d = dead[k] || cnt(k) == 0; dead[k] = d; nsx_assert((gDead[k] != 0) == d, "an object dies exactly when its last owner, whatever it looks at, lets go"); }
        for (int s = 0; s < S; ++s) ck(*sl[s], obj[s], al[s], 0);
    } }
    for (int k = 0; k < made; ++k) nsx_assert(gDead[k] == 1, "in the end everything is destroyed"); nsx_assert(!gDead[5] && local.use_count() == 0, "not counted"); }
    nsx_assert(nsx_live_heap() == heap, "no memory is leaked"); nsx_reach("aliasing");
}
void nsx_main() { unsigned m = (unsigned)nsx_param(0, 0), n = (unsigned)nsx_param(1, 2); if (m < 3 || m == 5) history(n, m == 5 ? 3 : m); else if (m == 4) aliasing(n); else lifetimes(n); }
