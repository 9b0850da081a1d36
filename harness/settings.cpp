// Settings: values, defaults, pending changes, events; saving and reading back (the file is a string held here).
#include "shim.h"
#include <cstring>
#include <nsx.h>
#include <fstream>
#include <sstream>
#include <vector>
#include <string>
static std::string g_file; static bool g_exists;
namespace std {
struct nsx_ifs : istringstream { nsx_ifs(const char* n) : istringstream(g_file) { if (!g_exists || strcmp(n, "f")) setstate(failbit); } };
struct nsx_ofs : ostringstream { nsx_ofs(const char*) { g_exists = true; g_file.clear(); } ~nsx_ofs() { g_file = str(); } };
}
#include <neolib/app/settings.hpp>
#define ifstream nsx_ifs
#define ofstream nsx_ofs
#include <../src/app/settings.cpp>
#undef ifstream
#undef ofstream
namespace neolib { enum class colour : uint32_t { Red, Green, Blue }; }
begin_declare_enum(neolib::colour)
declare_enum_string(neolib::colour, Red)
declare_enum_string(neolib::colour, Green)
declare_enum_string(neolib::colour, Blue)
end_declare_enum(neolib::colour)
using namespace neolib; typedef std::string S;
static unsigned pick(unsigned lo, unsigned hi, const char* w) { return lo == hi ? lo : (unsigned)nsx_choice(lo, hi, w); }
static const char* KEY[] = { "g.a", "g.b", "h.c" }; static const char* CAT[] = { "g", "g", "h" };
typedef ref_ptr<settings> Ref;
static void opaque(const S& s) { for (char c : s) nsx_observe((uint8_t)c); }
// changes to settings held in memory
struct M { bool reg = false, opt = false, has = false, mod = false, neu = false, on = true; int32_t val = 0, def = 0, nv = 0; i_setting* s = nullptr; unsigned changed = 0, changing = 0, wchanged = 0, own = 0; int32_t value() const { return has ? val : def; } int32_t next() const { return mod ? (neu ? nv : def) : value(); } };
static M m[3]; static unsigned cats[2], wcats[2], deleted;
static void state(const settings& s, bool dirty) {
    bool any = dirty; unsigned n = 0;
    for (unsigned k = 0; k < 3; ++k) { M& x = m[k]; bool th = false; try { nsx_assert(&s.setting(string{ KEY[k] }) == x.s, "found by its key"); } catch (i_settings::setting_not_found&) { th = true; } nsx_assert(th == !x.reg, "unknown settings are reported"); if (!x.reg) continue; ++n; any |= x.mod; const i_setting& t = *x.s;
        nsx_assert(t.value().get<int32_t>() == x.value(), "value"); nsx_assert(t.value(true).get<int32_t>() == x.next(), "value once applied"); nsx_assert(t.default_value().get<int32_t>() == x.def, "default");
        nsx_assert(t.modified() == x.mod, "pending"); nsx_assert(t.is_default() == !x.has && t.is_default(true) == (x.mod ? !x.neu : !x.has), "is default"); nsx_assert(t.is_enabled() == x.on, "enabled");
        bool nm = false; try { const i_setting_value& v = t.modified_value(); nsx_assert(v.is_set() == x.neu && (!x.neu || v.get<int32_t>() == x.nv), "pending value"); } catch (i_setting::setting_not_modified&) { nm = true; } nsx_assert(nm == !x.mod, "nothing pending is reported");
        nsx_assert(x.changed == x.wchanged, "changes are announced, once each"); nsx_assert(x.own == x.wchanged, "changes are announced by the setting"); }
    nsx_assert(s.modified() == any, "modified"); nsx_assert(s.all_settings().size() == n && s.all_settings_ordered().size() == n, "number of settings");
    for (unsigned c = 0; c < 2; ++c) nsx_assert(cats[c] == wcats[c], "categories applied are announced");
}
static void apply(M& x, bool& dirty, unsigned cat, bool announce) { if (!x.mod) return; bool ch = x.has != x.neu || (x.neu && x.val != x.nv); x.has = x.neu; x.val = x.nv; x.mod = false; if (ch) { ++x.wchanged; dirty = true; } if (announce) wcats[cat] = 1; }
static void set(M& x, int32_t v) { if (x.value() != v) { x.mod = x.neu = true; x.nv = v; } else x.mod = false; }
static void history(unsigned ops) {
    for (auto& x : m) x = M{}; cats[0] = cats[1] = wcats[0] = wcats[1] = 0; deleted = 0; sink k; sink own[3]; bool dirty = false;
    Ref r = make_ref<settings>(string{}); settings& s = static_cast<settings&>(*r); unsigned n = nsx_param(3, 2);
    k += s.setting_changed()([](const i_setting& t) { for (auto& x : m) if (x.s == &t) ++x.changed; });
    k += s.setting_deleted()([](const i_setting& t) { for (auto& x : m) if (x.s == &t) ++deleted; });
    k += s.settings_changed()([](const i_string& c) { for (unsigned i = 0; i < 2; ++i) if (c.to_std_string() == (i ? "h" : "g")) ++cats[i]; });
    for (unsigned i = 0; i < n; ++i) { unsigned q = i == 1 ? 2 : i == 2 ? 1 : i; M& x = m[q]; x.opt = i == 0; x.def = (int32_t)nsx_u32("default"); i_setting& t = s.register_setting(string{ KEY[q] }, x.def, setting_constraints<int32_t>{ x.opt }, string{ "f" }); x.reg = true; x.s = &t; own[q] = t.changed()([&x]() { ++x.own; }); bool th = false; if (i == 0) { try { s.register_setting(string{ KEY[q] }, x.def, setting_constraints<int32_t>{}); } catch (i_settings::setting_already_registered&) { th = true; } nsx_assert(th, "one setting for each key"); } }
    state(s, dirty); bool first = true;
    for (unsigned o = 0; o < ops; ++o) {
        unsigned q = n == 1 ? 0 : pick(0, n - 1, "which"); if (n > 1) q = q == 1 ? 2 : q == 2 ? 1 : 0; M& x = m[q]; cats[0] = cats[1] = wcats[0] = wcats[1] = 0;
        unsigned op = pick(0, 9, "op"); if (!x.reg && op < 8 && op != 5 && op != 6) return;
        switch (op) {
        case 0: { int32_t v = (int32_t)nsx_u32("v"); x.s->set_value(setting_value<int32_t>{ v }); set(x, v); break; }
        case 1: { int32_t v = (int32_t)nsx_u32("v"); *x.s = v; set(x, v); break; }
        case 2: { bool th = false; try { x.s->clear(); } catch (i_setting::setting_not_optional&) { th = true; } nsx_assert(th == !x.opt, "only optional settings are cleared"); if (x.opt) { x.mod = x.has; x.neu = false; } nsx_reach("cleared"); break; }
        case 3: { int32_t v = (int32_t)nsx_u32("d"); bool ch = v != x.def; x.s->set_default_value(setting_value<int32_t>{ v }); x.def = v; if (ch && !x.has) { ++x.wchanged; dirty = true; } break; }
        case 4: { int32_t v = (int32_t)nsx_u32("v"); bool now = pick(0, 1, "now"); s.change_setting(*x.s, setting_value<int32_t>{ v }, now); set(x, v); if (now) { apply(x, dirty, 0, false); dirty = false; } break; }
        case 5: { bool any = dirty; for (auto& y : m) any |= y.reg && y.mod; s.apply_changes(); if (any) { for (unsigned j = 0; j < 3; ++j) if (m[j].reg) apply(m[j], dirty, j / 2, true); dirty = false; } nsx_reach("applied"); break; }
        case 6: s.discard_changes(); for (auto& y : m) y.mod = false; nsx_reach("discarded"); break;
        case 7: { bool e = pick(0, 1, "enable"); if (e) x.s->enable(); else x.s->set_enabled(false); if (e != x.on) { x.on = e; ++x.wchanged; dirty = true; } break; }
        case 8: { if (!x.reg) { bool th = false; return; } unsigned d = deleted; own[q].clear(); s.delete_setting(*x.s); nsx_assert(deleted == d + 1, "deletion is announced"); x.reg = false; x.s = nullptr; dirty = false; nsx_reach("deleted"); break; }
        case 9: { if (!x.reg) return; int32_t v = (int32_t)nsx_u32("v"); x.s->apply_value(v); set(x, v); apply(x, dirty, 0, false); break; }
        }
        state(s, dirty);
    }
    nsx_reach("history");
}
// a setting's text says its value
template <typename T> static void text(T d) {
    Ref r = make_ref<settings>(string{}); i_setting& t = r->register_setting(string{ "k" }, d, setting_constraints<T>{}); bool neg = std::is_signed_v<T> && pick(0, 1, "negative"); unsigned u = nsx_u8("u"); nsx_assume(u <= 127); if (nsx_param(2, 0)) nsx_assume(u % 16 == 9 || u == 32 || u < 2); long n = neg ? -(long)u : (long)u;
    S s; if (neg && u) s += '-'; if (u >= 100) s += (char)('0' + u / 100); if (u >= 10) s += (char)('0' + u / 10 % 10); s += (char)('0' + u % 10);
    t.set_value_from_string(string{ s }); nsx_assert(t.value(true).get<T>() == (T)n, "the number the text says"); S o = t.value_as_string(true); nsx_assert(o.size() == s.size(), "length of the text"); bool same = true; for (unsigned i = 0; i < s.size(); ++i) same &= o[i] == s[i]; nsx_assert(same, "the text of the number"); nsx_reach("text");
}
// saved settings are read back
template <typename T> static T any_value(const char* n);
template <> int32_t any_value<int32_t>(const char* n) { static const int32_t v[] = { 0, -1, 12, -2147483647 - 1, 2147483647 }; return v[pick(0, 4, n)]; }
template <> int64_t any_value<int64_t>(const char* n) { static const int64_t v[] = { 0, -1, 12, -9223372036854775807ll - 1, 9223372036854775807ll }; return v[pick(0, 4, n)]; }
template <> bool any_value<bool>(const char* n) { return pick(0, 1, n); }
template <> uint8_t any_value<uint8_t>(const char* n) { return nsx_u8(n); }
template <> int8_t any_value<int8_t>(const char* n) { return (int8_t)nsx_u8(n); }
template <> uint16_t any_value<uint16_t>(const char* n) { static const uint16_t v[] = { 0, 9, 10, 255, 65535 }; return v[pick(0, 4, n)]; }
template <> colour any_value<colour>(const char* n) { return (colour)pick(0, 2, n); }
template <> string any_value<string>(const char* n) { unsigned l = pick(0, nsx_param(2, 2), "length"); S s(l, 0); for (auto& c : s) { uint8_t b = nsx_u8(n); if (l == 1 && n[0] == 'v') nsx_assume(b >= 32 || b == 9 || b == 10); else { bool in = false; for (const char* a = n[0] == 'v' ? "k <\"&\n;" : "k"; *a; ++a) in |= b == (uint8_t)*a; nsx_assume(in); } c = (char)b; } return string{ s }; }
template <typename T> static void saved(const char* key, const char* other) {
    g_exists = false; g_file.clear(); T v = any_value<T>("v"), d = any_value<T>("d"); bool changed = false;
    { Ref r = make_ref<settings>(string{ "f" }); i_setting& o = r->register_setting(string{ other }, (int32_t)1, setting_constraints<int32_t>{}); i_setting& t = r->register_setting(string{ key }, d, setting_constraints<T>{}); if (pick(0, 1, "other too")) { o.set_value(setting_value<int32_t>{ 77 }); nsx_reach("both"); }
      t.set_value(setting_value<T>{ v }); changed = !t.is_default(true); r->apply_changes(); nsx_assert(!r->modified(), "nothing left to apply"); }
    { Ref r = make_ref<settings>(string{ "f" }); T e = any_value<T>("e"); bool first = pick(0, 1, "order"); i_setting* t = nullptr; if (first) t = &r->register_setting(string{ key }, e, setting_constraints<T>{}); i_setting& o = r->register_setting(string{ other }, (int32_t)1, setting_constraints<int32_t>{}); if (!first) t = &r->register_setting(string{ key }, e, setting_constraints<T>{});
      T got = t->template value<T>(); T want = changed ? v : e; nsx_assert(got == want, "the saved value is read back, or the default"); int32_t w = o.value<int32_t>(); nsx_assert(w == 77 || w == 1, "the other setting"); nsx_assert(!r->modified(), "reading changes nothing"); }
    nsx_reach("saved");
}
// titles and friendly text
static void titles() {
    Ref p = make_ref<settings>(string{}); i_settings& r = *p; static const char* name[] = { "g", "g.x", "g.y", "h", "h.x" }; bool cat[5] = {}, grp[5] = {}; unsigned ct[5] = {}, gt[5] = {}; static const char* title[] = { "", "one", "two" };
    for (unsigned i = 0; i < nsx_param(1, 3); ++i) { unsigned q = pick(0, 4, "name"), t = pick(0, 2, "title"); if (pick(0, 1, "group")) { r.register_group(string{ name[q] }, string{ title[t] }); grp[q] = true; gt[q] = t; } else { r.register_category(string{ name[q] }, string{ title[t] }); cat[q] = true; ct[q] = t; } }
    for (unsigned q = 0; q < 5; ++q) { bool no = false; try { nsx_assert(r.category_title(string{ name[q] }).to_std_string() == title[ct[q]], "title of a category"); } catch (i_settings::category_not_found&) { no = true; } nsx_assert(no == !cat[q], "unknown categories are reported"); no = false; try { nsx_assert(r.group_title(string{ name[q] }).to_std_string() == title[gt[q]], "title of a group"); } catch (i_settings::group_not_found&) { no = true; } nsx_assert(no == !grp[q], "unknown groups are reported"); }
    i_setting& a = r.register_setting(string{ "a" }, (int32_t)1, setting_constraints<int32_t>{}); i_setting& b = r.register_setting(string{ "b" }, (int32_t)1, setting_constraints<int32_t>{}); S f(1, (char)nsx_u8("text")), g = "friend"; r.register_friendly_text(a, string{ f }, string{ g }); S h(1, (char)nsx_u8("text"));
    nsx_assert(r.friendly_text(a, string{ h }).to_std_string() == (h[0] == f[0] ? g : h), "friendly text, or the text itself"); nsx_assert(r.friendly_text(b, string{ h }).to_std_string() == h, "another setting's text"); nsx_reach("titles");
}
void nsx_main() {
    static bool once = (services::allocate_service_provider(), services::service<i_event_system>().set_locking_strategy(event_system_locking_strategy::SingleThreaded), true); (void)once;
    switch (nsx_param(0, 0)) {
    case 0: history(nsx_param(1, 2)); break;
    case 1: switch (nsx_param(1, 0)) { case 0: saved<int32_t>("g.a", "g.b"); break; case 1: saved<string>("g.a", "h.c"); break; case 2: saved<bool>("g.a", "g.a.x"); break; case 3: saved<int64_t>("g.a.x", "g.a"); break; case 4: saved<uint8_t>("a", "b"); break; case 5: saved<int8_t>("a", "b.c"); break; case 6: saved<uint16_t>("a", "b.c"); break; case 7: saved<colour>("a", "b.c"); break; } break;
    case 3: titles(); break;
    case 2: switch (nsx_param(1, 0)) { case 0: text<int8_t>(0); break; case 1: text<uint8_t>(0); break; case 2: text<int32_t>(0); break; case 3: text<uint64_t>(0); break; } break;
    }
}
