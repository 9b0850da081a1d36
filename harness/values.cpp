// optional, variant, any and pair: value types against plain reference values.
#include "seq.h"
#include <neolib/core/optional.hpp>
#include <neolib/core/variant.hpp>
#include <neolib/core/any.hpp>
#include <neolib/core/pair.hpp>
#include <neolib/core/string.hpp>
using namespace neolib;
static int sgn(std::partial_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 9; }
// ---- optional
#if STR
typedef neolib::string T; static T mk(uint8_t v) { return T(std::string(1, (char)v)); } static uint8_t rd(const i_string& s) { nsx_assert(s.size() == 1, "value"); return (uint8_t)s[0]; }
#else
typedef Tracked T; static T mk(uint8_t v) { return Tracked(v); } static uint8_t rd(const Tracked& t) { return val(t); }
#endif
struct MO { bool has = false; uint8_t v = 0; };
static void ckopt(neolib::optional<T>& o, const MO& m) {
    typedef i_optional<maybe_abstract_t<T>> A; A& a = o; const A& ca = o; const neolib::optional<T>& co = o;
    nsx_assert(co.has_value() == m.has && (bool)co == m.has && ca.has_value() == m.has && (bool)ca == m.has && (co == std::nullopt) == !m.has && (co != std::nullopt) == m.has && (ca == std::nullopt) == !m.has && co.as_std_optional().has_value() == m.has, "has_value");
    if (m.has) nsx_assert(rd(o.value()) == m.v && rd(co.value()) == m.v && rd(*o) == m.v && rd(*co) == m.v && rd(a.value()) == m.v && rd(ca.value()) == m.v && rd(*a) == m.v && rd(*ca) == m.v && rd(*a.operator->()) == m.v && rd(*ca.operator->()) == m.v, "value");
    else { bool th = false; try { (void)ca.value(); } catch (const std::bad_optional_access&) { th = true; } nsx_assert(th, "value of nothing throws"); th = false; try { (void)o.value(); } catch (const std::bad_optional_access&) { th = true; } nsx_assert(th, "value of nothing throws"); }
    uint8_t d = nsx_u8("default"); T dv = mk(d); const T& cdv = dv; nsx_assert(rd(ca.value_or(cdv)) == (m.has ? m.v : d) && rd(a.value_or(dv)) == (m.has ? m.v : d), "value_or");
}
static void optionals(unsigned steps) {
    long heap = nsx_live_heap(), live = g_live;
    { typedef neolib::optional<T> O; typedef i_optional<maybe_abstract_t<T>> A; O o[2]; MO m[2];
    for (unsigned t = 0; t < steps; ++t) {
        unsigned i = nsx_choice(0, 1, "i"), j = nsx_choice(0, 1, "j"); O& x = o[i]; A& ax = x; O& y = o[j]; const A& ay = y; uint8_t v = nsx_u8("v");
        switch (nsx_range(0, 10, "op")) {
        case 0: x = y; m[i] = m[j]; break;
        case 1: ax = ay; m[i] = m[j]; break;
        case 2: { T val = mk(v); const maybe_abstract_t<T>& av = val; ax = av; m[i] = { true, v }; break; }
        case 3: x.emplace(mk(v)); m[i] = { true, v }; break;
        case 4: if (nsx_choice(0, 1, "how")) ax.reset(); else ax = std::nullopt; m[i].has = false; break;
        case 5: { O c{ y }; ckopt(c, m[j]); O d{ ay }; ckopt(d, m[j]); O e{ std::nullopt }; ckopt(e, MO{}); O f{ y.to_std_optional() }; ckopt(f, m[j]); x = std::move(c); m[i] = m[j]; break; }
        case 6: { T val = mk(v); O c{ val }; ckopt(c, MO{ true, v }); O d = neolib::make_optional(mk(v)); ckopt(d, MO{ true, v }); nsx_assert(c == d && !(c == y) == !(m[j].has && m[j].v == v), "equality"); break; }
        case 7: { int ex = m[i].has != m[j].has ? (m[i].has ? 1 : -1) : !m[i].has ? 0 : m[i].v < m[j].v ? -1 : m[i].v > m[j].v; const A& cx = x; nsx_assert(sgn(x <=> y) == ex && (x == y) == (ex == 0) && sgn(cx <=> ay) == ex && (cx == ay) == (ex == 0), "nothing is less than any value; values compare as themselves"); nsx_reach("compare"); break; }
        case 8: { T val = mk(v); int ex = !m[i].has ? -1 : m[i].v < v ? -1 : m[i].v > v;
#if !STR
            nsx_assert((x == val) == (m[i].has && m[i].v == v) && sgn(x <=> val) == ex && (val == x) == (ex == 0) && sgn(val <=> x) == -ex, "comparison with a value");
#endif
            break; }
        case 9: if (m[i].has) { *ax = mk(v); m[i].v = v; } break;
        case 10: { T val = mk(v); if (nsx_choice(0, 1, "how")) { O c{ y }; O d{ std::move(c) }; ckopt(d, m[j]); x = d; m[i] = m[j]; } else { x = val; m[i] = { true, v }; } break; }
        }
        ckopt(o[0], m[0]); ckopt(o[1], m[1]);
    } }
    nsx_assert(g_live == live && nsx_live_heap() == heap, "everything is destroyed and no memory is leaked"); nsx_reach("optional");
}
// ---- variant
typedef neolib::variant<uint32_t, neolib::string, Tracked> V; typedef V::abstract_type AV;
struct MV { unsigned k = 0; uint32_t v = 0; };
struct Vis { unsigned& k; uint32_t& v; void operator()(const uint32_t& x) const { k = 1; v = x; } void operator()(const i_string& s) const { k = 2; v = (uint8_t)s[0]; } void operator()(const Tracked& t) const { k = 3; v = val(t); } };
static void ckvar(V& x, const MV& m) {
    AV& a = x; const AV& ca = x; const V& cx = x;
    nsx_assert(ca.index() == m.k && cx.index() == m.k && (cx == none) == (m.k == 0) && (none == cx) == (m.k == 0) && (cx != none) == (m.k != 0), "index");
    nsx_assert(ca.holds_alternative<uint32_t>() == (m.k == 1) && ca.holds_alternative<i_string>() == (m.k == 2) && ca.holds_alternative<Tracked>() == (m.k == 3) && std::holds_alternative<uint32_t>(cx) == (m.k == 1) && std::holds_alternative<neolib::string>(cx) == (m.k == 2), "holds_alternative");
    nsx_assert((ca.get_if<uint32_t>() != nullptr) == (m.k == 1) && (ca.get_if<i_string>() != nullptr) == (m.k == 2) && (a.get_if<Tracked>() != nullptr) == (m.k == 3), "get_if");
    bool ok = true; if (m.k == 1) ok = ca.get<uint32_t>() == m.v && std::get<uint32_t>(cx) == m.v && *a.get_if<uint32_t>() == m.v; if (m.k == 2) ok = ca.get<i_string>().size() == 1 && (uint8_t)ca.get<i_string>()[0] == m.v && (uint8_t)std::get<neolib::string>(cx)[0] == m.v; if (m.k == 3) ok = val(ca.get<Tracked>()) == m.v && val(std::get<Tracked>(cx)) == m.v;
    nsx_assert(ok, "value");
    if (m.k != 1) { bool th = false; try { (void)ca.get<uint32_t>(); } catch (const std::bad_variant_access&) { th = true; } nsx_assert(th, "get of another alternative throws"); th = false; try { (void)std::get<uint32_t>(cx); } catch (const std::bad_variant_access&) { th = true; } nsx_assert(th, "get of another alternative throws"); }
    nsx_assert(static_cast<const void*>(ca.ptr()) == (m.k == 1 ? (const void*)ca.get_if<uint32_t>() : m.k == 2 ? (const void*)ca.get_if<i_string>() : m.k == 3 ? (const void*)ca.get_if<Tracked>() : ca.ptr()), "ptr");
    if (m.k == 1) ok = std::get<uint32_t>(x) == m.v && static_variant_cast<uint32_t>(cx) == m.v && static_variant_cast<uint32_t&>(x) == m.v && a.get<uint32_t>() == m.v; if (m.k == 2) ok = (uint8_t)std::get<neolib::string>(x)[0] == m.v && (uint8_t)static_variant_cast<neolib::string>(cx)[0] == m.v && (uint8_t)a.get<i_string>()[0] == m.v; if (m.k == 3) ok = val(std::get<Tracked>(x)) == m.v && val(static_variant_cast<const Tracked&>(cx)) == m.v && val(a.get<Tracked>()) == m.v; nsx_assert(ok, "value");
    { bool th = false; unsigned g = 0; try { g = static_numeric_variant_cast<uint8_t>(cx); } catch (const bad_numeric_variant_cast&) { th = true; } nsx_assert(th == (m.k != 1) && (th || g == (uint8_t)m.v), "numeric cast"); unsigned k1 = 9; uint32_t v1 = 0; std::visit([&](auto&& arg) { typedef std::decay_t<decltype(arg)> A; if constexpr (std::is_same_v<A, uint32_t>) { k1 = 1; v1 = arg; } else if constexpr (std::is_same_v<A, neolib::string>) { k1 = 2; v1 = (uint8_t)arg[0]; } else if constexpr (std::is_same_v<A, Tracked>) { k1 = 3; v1 = val(arg); } else k1 = 0; }, x); nsx_assert(k1 == m.k && (k1 == 0 || v1 == m.v), "visit"); }
    unsigned vk = 0; uint32_t vv = 0; if (m.k) { neolib::visit(Vis{ vk, vv }, a); nsx_assert(vk == m.k && vv == m.v, "visit"); vk = 0; vv = 0; } bool th = false; try { neolib::visit(Vis{ vk, vv }, ca); } catch (const std::bad_variant_access&) { th = true; } nsx_assert(th == (m.k == 0) && vk == m.k && (m.k == 0 || vv == m.v), "visit");
}
static void variants(unsigned steps) {
    long heap = nsx_live_heap(), live = g_live;
    { V x[2]; MV m[2];
    for (unsigned t = 0; t < steps; ++t) {
        unsigned i = nsx_choice(0, 1, "i"), j = nsx_choice(0, 1, "j"); V& p = x[i]; AV& ap = p; V& q = x[j]; const AV& aq = q; const V& cq = q; uint8_t v = nsx_u8("v");
        switch (nsx_range(0, 11, "op")) {
        case 0: { uint32_t w = nsx_u32("w"); if (nsx_choice(0, 1, "how")) p = w; else ap = w; m[i] = { 1, w }; break; }
        case 1: { neolib::string s(std::string(1, (char)v)); p = s; m[i] = { 2, v }; break; }
        case 2: { neolib::string s(std::string(1, (char)v)); const i_string& as = s; if (nsx_choice(0, 1, "how")) p = as; else ap = as; m[i] = { 2, v }; break; }
        case 3: { Tracked k(v); if (nsx_choice(0, 1, "how")) p = k; else ap = k; m[i] = { 3, v }; break; }
        case 4: p = cq; m[i] = m[j]; break;
        case 5: { ap = aq; m[i] = m[j]; nsx_reach(m[j].k ? "assign" : "assign empty"); } break;
        case 6: p = aq; m[i] = m[j]; break;
        case 7: { V c{ cq }; ckvar(c, m[j]); V d{ aq }; ckvar(d, m[j]); V e{ std::move(c) }; ckvar(e, m[j]); p = std::move(e); m[i] = m[j]; break; }
        case 8: p = none; m[i].k = 0; break;
        case 9: { int ex = m[i].k != m[j].k ? (m[i].k < m[j].k ? -1 : 1) : m[i].k == 0 || m[i].v == m[j].v ? 0 : m[i].v < m[j].v ? -1 : 1; nsx_assert((p == q) == (ex == 0) && (p != q) == (ex != 0) && (p < q) == (ex < 0) && (p <= q) == (ex <= 0) && (p > q) == (ex > 0) && (p >= q) == (ex >= 0) && sgn(p <=> q) == ex, "comparison: by alternative, then by value"); nsx_reach("compare"); break; }
        case 11: { neolib::string s(std::string(1, (char)v)); uint32_t w = nsx_u32("w"); Tracked k(v); switch (nsx_choice(0, 4, "how")) { case 0: p = std::move(s); m[i] = { 2, v }; break; case 1: p = std::move(k); m[i] = { 3, v }; break; case 2: { V c{ std::move(s) }; p = std::move(c); m[i] = { 2, v }; break; } case 3: { V c; ckvar(c, MV{}); c = p; AV& ac = c; V d; d = ac; ckvar(d, m[i]); break; } default: { neolib::variant<int32_t, uint8_t> n{ (int32_t)w }; nsx_assert(static_numeric_variant_cast<uint8_t>(n) == (uint8_t)w && std::holds_alternative<uint8_t>(n), "numeric conversion in place"); nsx_assert((variant_index_of<uint32_t, std::variant<std::monostate, uint32_t, Tracked>>() == 0) && (variant_index_of<Tracked, std::variant<std::monostate, uint32_t, Tracked>>() == 1), "index of a type"); } } break; }
        case 10: { neolib::string s(std::string(1, (char)v)); const i_string& as = s; V c{ s }; ckvar(c, MV{ 2, v }); V d{ as }; ckvar(d, MV{ 2, v }); Tracked k(v); V e{ k }; ckvar(e, MV{ 3, v }); if (m[i].k == 3) { ap.get<Tracked>() = Tracked(v); m[i].v = v; } break; }
        }
        ckvar(x[0], m[0]); ckvar(x[1], m[1]);
    } }
    nsx_assert(g_live == live && nsx_live_heap() == heap, "everything is destroyed and no memory is leaked"); nsx_reach("variant");
}
// ---- any
struct Big { uint32_t a, b; Tracked t; Big(uint32_t a, uint8_t b) : a(a), b(b), t(b) {} };
struct MA { unsigned k = 0; uint32_t v = 0; };
static void ckany(neolib::any& x, const MA& m) {
    const neolib::any& cx = x; const i_any& ia = x; i_any& na = x;
    nsx_assert(ia.has_value() == (m.k != 0) && cx.has_value() == (m.k != 0), "has_value");
    nsx_assert((ia.type() == typeid(uint32_t)) == (m.k == 1) && (cx.type() == typeid(Tracked)) == (m.k == 2) && (ia.type() == typeid(Big)) == (m.k == 3) && (ia.type() == typeid(void)) == (m.k == 0), "type");
    bool th = false; uint32_t g = 0; try { g = any_cast<uint32_t>(ia); } catch (const std::bad_any_cast&) { th = true; } nsx_assert(th == (m.k != 1) && (th || g == m.v), "any_cast");
    th = false; try { g = val(any_cast<const Tracked&>(cx)); } catch (const std::bad_any_cast&) { th = true; } nsx_assert(th == (m.k != 2) && (th || g == m.v), "any_cast");
    const Big* b = any_cast<Big>(&cx); nsx_assert((b != nullptr) == (m.k == 3) && any_cast<Big>(&x) == b && any_cast<Big>(&na) == b && any_cast<Big>(&ia) == b, "any_cast of a pointer"); if (b) nsx_assert(b->a == m.v && val(b->t) == (uint8_t)m.v, "any_cast of a pointer");
    if (m.k == 1) nsx_assert(unsafe_any_cast<uint32_t>(ia) == m.v && unsafe_any_cast<uint32_t>(x) == m.v, "unsafe_any_cast"); if (m.k == 2) nsx_assert(val(unsafe_any_cast<const Tracked&>(cx)) == m.v, "unsafe_any_cast");
}
static void anys(unsigned steps) {
    long heap = nsx_live_heap(), live = g_live;
    { neolib::any x[2]; MA m[2];
    for (unsigned t = 0; t < steps; ++t) {
        unsigned i = nsx_choice(0, 1, "i"), j = nsx_choice(0, 1, "j"); neolib::any &p = x[i], &q = x[j]; const neolib::any& cq = q; const i_any& iq = q; i_any& nq = q; uint8_t v = nsx_u8("v");
        switch (nsx_range(0, 14, "op")) {
        case 0: { uint32_t w = nsx_u32("w"); p = w; m[i] = { 1, w }; break; }
        case 1: { Tracked k(v); p = k; m[i] = { 2, v }; break; }
        case 2: p.emplace<Big>(v, v); m[i] = { 3, v }; break;
        case 3: p = q; m[i] = m[j]; break;
        case 4: p = cq; m[i] = m[j]; break;
        case 5: p = iq; m[i] = m[j]; break;
        case 6: p = std::move(q); if (i != j) { m[i] = m[j]; m[j].k = 0; } nsx_reach("move"); break;
        case 7: { neolib::any c{ q }; ckany(c, m[j]); neolib::any d{ cq }; ckany(d, m[j]); neolib::any e{ iq }; ckany(e, m[j]); neolib::any g{ nq }; ckany(g, m[j]); neolib::any f{ std::move(c) }; ckany(f, m[j]); ckany(c, MA{}); p = std::move(f); m[i] = m[j]; break; }
        case 8: p.reset(); m[i].k = 0; break;
        case 9: if (nsx_choice(0, 1, "how")) p.swap(q); else swap(p, q); { MA s = m[i]; m[i] = m[j]; m[j] = s; } break;
        case 10: { neolib::any a{ Tracked(v) }; ckany(a, MA{ 2, v }); neolib::any b{ (uint32_t)v }; ckany(b, MA{ 1, v }); break; }
        case 12: if (i != j || m[i].k == 0) { neolib::any c{ static_cast<i_any&&>(nq) }; ckany(c, m[j]); p = static_cast<i_any&&>(c); m[i] = m[j]; } break;
        case 13: { if (m[i].k == 1) nsx_assert(any_cast<uint32_t>(std::move(p)) == m[i].v, "any_cast"); break; }
        case 14: { p.emplace<uint32_t>(v); m[i] = { 1, v }; break; }
        case 11: if (m[i].k == 2) { any_cast<Tracked&>(p) = Tracked(v); m[i].v = v; } break;
        }
        ckany(x[0], m[0]); ckany(x[1], m[1]);
    } }
    nsx_assert(g_live == live && nsx_live_heap() == heap, "everything is destroyed and no memory is leaked"); nsx_reach("any");
}
// ---- pair
static void pairs() {
    long heap = nsx_live_heap(), live = g_live;
    { typedef neolib::pair<neolib::string, Tracked> P; typedef i_pair<i_string, Tracked> A; uint8_t k[2], v[2]; for (int i = 0; i < 2; ++i) { k[i] = nsx_u8("k"); v[i] = nsx_u8("v"); }
    auto S = [](uint8_t c) { return neolib::string(std::string(1, (char)c)); };
    auto is = [&](const A& p, int i, int j) { return p.first().size() == 1 && (uint8_t)p.first()[0] == k[i] && val(p.second()) == v[j]; };
    P p{ S(k[0]), Tracked(v[0]) }, q{ S(k[1]), Tracked(v[1]) }; A &ap = p, &aq = q; nsx_assert(is(p, 0, 0) && is(q, 1, 1), "pair");
    int ex = k[0] != k[1] ? (k[0] < k[1] ? -1 : 1) : v[0] != v[1] ? (v[0] < v[1] ? -1 : 1) : 0; nsx_assert((p == q) == (ex == 0) && sgn(p <=> q) == ex && (ap == aq) == (ex == 0) && sgn(ap <=> aq) == ex, "comparison is lexicographic");
    switch (nsx_range(0, 5, "op")) {
    case 0: { P c{ p }; nsx_assert(is(c, 0, 0), "copy"); P d{ ap }; nsx_assert(is(d, 0, 0), "copy through the interface"); c = q; nsx_assert(is(c, 1, 1) && is(q, 1, 1), "assignment"); break; }
    case 1: ap = aq; nsx_assert(is(p, 1, 1) && is(q, 1, 1), "assignment through the interface"); break;
    case 2: swap(p, q); nsx_assert(is(p, 1, 1) && is(q, 0, 0), "swap"); break;
    case 3: { auto [a, b] = p; nsx_assert((uint8_t)a[0] == k[0] && val(b) == v[0], "structured binding"); auto& [c, d] = ap; nsx_assert(&d == &p.second() && &c == &p.first(), "structured binding"); break; }
    case 4: { auto m = neolib::make_pair(S(k[0]), Tracked(v[1])); nsx_assert(is(m, 0, 1), "make_pair"); p = std::move(m); nsx_assert(is(p, 0, 1), "move"); break; }
    case 5: ap.first() = S(k[1]); ap.second() = Tracked(v[1]); nsx_assert(is(p, 1, 1), "members"); P z; nsx_assert(z.first().size() == 0 && val(z.second()) == 0, "default"); break;
    } }
    nsx_assert(g_live == live && nsx_live_heap() == heap, "everything is destroyed and no memory is leaked"); nsx_reach("pair");
}
// writing an optional and reading it back into any other gives its value, or none
#include <sstream>
static void streams() {
    neolib::optional<uint16_t> o, r; if (nsx_choice(0, 1, "filled")) o = (uint16_t)(nsx_choice(0, 1, "big") ? 65535 : nsx_range(0, 9, "digit")); if (nsx_choice(0, 1, "into filled")) r = (uint16_t)77;
    std::stringstream s; s << o; if (nsx_choice(0, 1, "more")) s << " x"; s >> r; nsx_assert(r.has_value() == o.has_value() && (!o.has_value() || *r == *o), "reading back what was written"); nsx_assert(!s.fail(), "stream state");
    neolib::optional<char> c, d('q'); if (nsx_choice(0, 1, "char")) { char x = (char)nsx_u8("c"); nsx_assume(x != '?' && x != ' ' && (x < '\t' || x > '\r')); c = x; } std::stringstream t; t << c; t >> d; nsx_assert(d.has_value() == c.has_value() && (!c.has_value() || *d == *c), "reading back a character");
    std::stringstream e; neolib::optional<char> f('q'); e >> f; nsx_assert(e.fail() && f.has_value() && *f == 'q', "nothing to read");
    nsx_reach("streams");
}
extern "C" void nsx_main() { unsigned n = (unsigned)nsx_param(1, 2); switch (nsx_param(0, 0)) { case 0: optionals(n); break; case 1: variants(n); break; case 2: anys(n); break; case 4: streams(); break; default: pairs(); } }
