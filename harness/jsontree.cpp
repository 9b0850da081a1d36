// JSON documents in memory: building, editing, navigating, looking up and visiting agree with a plain tree.
#include <nsx.h>
#include <neolib/file/json.hpp>
#include <sstream>
#include <string>
#include <vector>
typedef neolib::basic_json<neolib::json_syntax::Standard> json;
typedef json::json_value jvalue;
typedef std::string S;
using neolib::json_type;
static unsigned pick(unsigned lo, unsigned hi, const char* w) { return lo == hi ? lo : (unsigned)nsx_choice(lo, hi, w); }
enum Kind { OBJ, ARR, INT, STR };
struct N { Kind k; int v; S name; bool named; std::vector<N*> kids; N* up; N(N* u, Kind k, int v) : k(k), v(v), named(false), up(u) {} ~N() { drop(); } void drop() { for (auto p : kids) delete p; kids.clear(); } };
static const char* nm[] = { "a", "b", "" };
static void flat(N* n, std::vector<N*>& o) { o.push_back(n); for (auto p : n->kids) flat(p, o); }
static void flatj(jvalue& v, std::vector<jvalue*>& o) { o.push_back(&v); for (auto i = v.begin(); i != v.end(); ++i) flatj(i.value(), o); }
static void same(const jvalue& v, const N* n) {
    static const json_type ty[] = { json_type::Object, json_type::Array, json_type::Int, json_type::String };
    nsx_assert(v.type() == ty[n->k] && v.has_name() == n->named, "kind"); if (n->named) nsx_assert(v.name() == n->name && !v.name_is_keyword(), "name");
    if (n->k == INT) nsx_assert(v.as<int>() == n->v && v.as<std::int64_t>() == n->v && v.as<double>() == (double)n->v, "number"); if (n->k == STR) nsx_assert(v.text() == S((unsigned)n->v, 's'), "string");
    bool comp = n->k == OBJ || n->k == ARR; nsx_assert(v.is_composite() == comp && v.is_empty_composite() == (comp && n->kids.empty()) && v.is_populated_composite() == (comp && !n->kids.empty()), "composite");
    nsx_assert(v.size() == n->kids.size() && v.empty() == n->kids.empty() && v.has_children() == !n->kids.empty(), "number of children"); nsx_assert((v.first_child() == nullptr) == n->kids.empty() && (v.last_child() == nullptr) == n->kids.empty(), "first and last");
    const jvalue* prev = nullptr; unsigned i = 0;
    for (auto it = v.begin(); it != v.end(); ++it, ++i) { nsx_assert(i < n->kids.size(), "no extra children"); const jvalue& c = it.value(); nsx_assert(&*it == &c && it->type() == c.type(), "iterator dereference"); nsx_assert(c.has_parent() && !c.is_root() && &c.parent() == &v, "parent"); nsx_assert(c.is_last_sibling() == (i + 1 == n->kids.size()) && (i ? prev->next_sibling() == &c : v.first_child() == &c), "siblings"); same(c, n->kids[i]); prev = &c; }
    nsx_assert(i == n->kids.size() && v.last_child() == prev && (!prev || prev->next_sibling() == nullptr), "every child");
    if (n->k == ARR) { auto& a = v.as<json::json_array>(); unsigned q = 0; for (auto p : a) { nsx_assert(q < i, "the array has no extra elements"); nsx_assert(&a[q] == p, "array element"); same(*p, n->kids[q]); ++q; } nsx_assert(q == i, "the array has every element"); bool th = false; try { (void)a[i]; } catch (const std::out_of_range&) { th = true; } nsx_assert(th, "no element past the end"); nsx_assert(&a.contents() == &v && a.cend() - a.cbegin() == (long)i, "array owner"); }
    if (n->k == OBJ) { auto& o = v.as<json::json_object>(); for (auto s : nm) { unsigned c = 0; const N* f = nullptr; for (auto k : n->kids) if (k->name == s) { if (!c++) f = k; } nsx_assert(o.has(json::json_string{s}) == (c > 0), "has"); if (c == 1) { nsx_assert(&o.at(json::json_string{s}).parent() == &v, "at"); same(o.at(json::json_string{s}), f); } bool th = false; try { (void)o.at(json::json_string{s}); } catch (const std::out_of_range&) { th = true; } nsx_assert(th == (c == 0), "at of an absent name throws");
        if (c <= 1) { const int d = -77; if (!f || f->k == INT) nsx_assert(o.at_or(json::json_string{s}, d) == (f ? f->v : -77), "at_or"); const json::json_string ds{ "zz" }; if (!f || f->k == STR) { auto& r = o.at_or(json::json_string{s}, ds); nsx_assert(r == (f ? S((unsigned)f->v, 's') : S("zz")), "at_or of text"); } } } }
}
static void whole(json& j, N* m) {
    std::vector<N*> ns; flat(m, ns); same(j.croot(), m); nsx_assert(j.root().is_root() && !j.croot().has_parent(), "root");
    { unsigned i = 0; for (auto it = j.begin(); it != j.end(); ++it, ++i) { nsx_assert(i < ns.size(), "traversal ends"); nsx_assert(it->type() == j.croot().type() || i, "traversal"); const jvalue& v = it.value(); nsx_assert(v.size() == ns[i]->kids.size() && v.has_name() == ns[i]->named && (!ns[i]->named || v.name() == ns[i]->name) && (ns[i]->k != INT || v.as<int>() == ns[i]->v), "document order"); } nsx_assert(i == ns.size(), "traversal visits every value"); }
    { unsigned i = 0; const json& cj = j; for (auto it = cj.begin(); it != cj.end(); ++it) ++i; nsx_assert(i == ns.size(), "const traversal"); }
    { unsigned i = 0; bool ok = true; auto vis = [&](auto&& x) { typedef std::decay_t<decltype(x)> X; if (i >= ns.size()) { ok = false; return; } N* n = ns[i++]; if constexpr (std::is_same_v<X, int>) ok &= n->k == INT && x == n->v; else if constexpr (std::is_same_v<X, json::json_string>) ok &= n->k == STR && x == S((unsigned)n->v, 's'); else if constexpr (std::is_same_v<X, json::json_object>) ok &= n->k == OBJ; else if constexpr (std::is_same_v<X, json::json_array>) ok &= n->k == ARR; else ok = false; };
      j.visit(vis); nsx_assert(ok && i == ns.size(), "visit sees every value in order"); i = 0; static_cast<const json&>(j).visit(vis); nsx_assert(ok && i == ns.size(), "const visit"); i = 0; j.root().visit(vis, false); nsx_assert(ok && i == 1, "visit without recursion"); i = 0; j.croot().visit(vis, false); nsx_assert(ok && i == 1, "const visit without recursion"); }
}
static void paths(json& j, N* m) {     // at("a.b"): the value reached name by name
    static const char* bits[] = { "a", "b", "c" }; unsigned d = pick(1, 3, "depth"); S p; N* n = m; for (unsigned i = 0; i < d; ++i) { unsigned x = pick(0, 2, "part"); if (i) p += "."; p += bits[x]; N* f = nullptr; if (n && n->k == OBJ) for (auto k : n->kids) if (!f && k->name == bits[x]) f = k; n = f; }
    bool th = false; const jvalue* v = nullptr; try { v = &j.at(json::json_string{ p.c_str() }); } catch (...) { th = true; } nsx_assert(th == (n == nullptr), "a path that leads nowhere throws, others do not"); if (n) { same(*v, n); nsx_reach("path"); }
}
static void edit(json& j, N* m) {
    std::vector<N*> ns; flat(m, ns); std::vector<jvalue*> js; flatj(j.root(), js); nsx_assert(ns.size() == js.size(), "as many values"); unsigned w = pick(0, ns.size() - 1, "at"); N* n = ns[w]; jvalue& v = *js[w];
    if (pick(0, 1, "looked up before")) same(v, n);
    int iv = nsx_param(4, 1) ? 7 : (int)nsx_u32("number"); auto val = [iv](unsigned t) -> json::value_type { return t == OBJ ? json::value_type{ json::json_object{} } : t == ARR ? json::value_type{ json::json_array{} } : t == INT ? json::value_type{ iv } : json::value_type{ json::json_string{ "ss" } }; }; auto num = [iv](unsigned t) { return t == INT ? iv : t == STR ? 2 : 0; };
    switch (pick(0, 5, "op")) {
    case 0: { unsigned t = pick(0, 3, "new"); v = val(t); n->drop(); n->k = (Kind)t; n->v = num(t); nsx_reach("replaced"); break; }
    case 1: { if (n->k != ARR) nsx_assume(false); unsigned t = pick(0, 3, "new"); jvalue& r = v.as<json::json_array>().push_back(val(t)); n->kids.push_back(new N(n, (Kind)t, num(t))); same(r, n->kids.back()); nsx_assert(&v.as<json::json_array>().back() == &r && v.last_child() == &r, "back"); nsx_reach("pushed"); break; }
    case 2: { if (n->k != OBJ) nsx_assume(false); unsigned x = pick(0, 2, "name"), c = 0; N* f = nullptr; for (auto k : n->kids) if (k->name == nm[x]) { f = k; ++c; } if (c > 1) nsx_assume(false); unsigned t = pick(1, 3, "new"); v.as<json::json_object>()[json::json_string{ nm[x] }] = val(t); if (!f) { f = new N(n, INT, 0); f->named = true; f->name = nm[x]; n->kids.push_back(f); } f->drop(); f->k = (Kind)t; f->v = num(t); nsx_reach("member"); break; }
    case 3: { if (n->k != OBJ) nsx_assume(false); unsigned t = pick(1, 3, "new"), x = pick(0, 2, "name"); jvalue& r = v.emplace_back(val(t)); N* k = new N(n, (Kind)t, num(t)); k->named = true; n->kids.push_back(k); if (pick(0, 1, "look at it unnamed")) { r.set_name(json::json_string{ "a" }); k->name = "a"; same(v, n); } r.set_name(json::json_string{ nm[x] }); k->name = nm[x]; nsx_reach("named"); break; }
    case 4: { v.clear(); n->drop(); nsx_reach("cleared"); break; }
    case 5: { if (n->k != ARR) nsx_assume(false); unsigned t = pick(0, 3, "new"); if (pick(0, 1, "how")) v.push_back(val(t)); else { jvalue& r = v.emplace_back(val(t)); nsx_assert(&r == v.last_child(), "emplace_back returns the new value"); } n->kids.push_back(new N(n, (Kind)t, num(t))); nsx_reach("appended"); break; }
    }
}
static S text(N* n, unsigned depth, unsigned wid) {   // a document of any shape
    unsigned t = depth ? pick(0, 3, "kind") : pick(2, 3, "kind"); n->k = (Kind)t; n->v = t == INT ? 5 : t == STR ? 1 : 0; if (t == INT) return "5"; if (t == STR) return "\"s\"";
    S s = t == OBJ ? "{" : "["; unsigned c = pick(0, wid, "children"); for (unsigned i = 0; i < c; ++i) { N* k = new N(n, INT, 0); n->kids.push_back(k); if (i) s += ","; if (t == OBJ) { k->named = true; k->name = nm[pick(0, 1, "name")]; s += "\"" + k->name + "\":"; } s += text(k, depth - 1, wid > 1 && depth > 1 ? wid - 1 : wid); } return s + (t == OBJ ? "}" : "]");
}
void nsx_main() {
    unsigned mode = (unsigned)nsx_param(0, 0), depth = (unsigned)nsx_param(1, 2), wid = (unsigned)nsx_param(2, 2), steps = (unsigned)nsx_param(3, 1);
    static json kept; // the allocator of values and the like are made once
    { N m(nullptr, OBJ, 0); json j; nsx_assert(!j.has_root(), "no root yet");
      if (depth) { S s = text(&m, depth, wid); std::istringstream in(s); nsx_assert(j.read(in), "read"); nsx_assert(j.has_root(), "root"); } else j.root() = json::json_object{};
      if (mode == 1) { paths(j, &m); return; }
      whole(j, &m); for (unsigned i = 0; i < steps; ++i) { edit(j, &m); if (i + 1 == steps || pick(0, 1, "look between")) whole(j, &m); }
      if (steps && nsx_param(4, 1)) { std::ostringstream o; nsx_assert(j.write(o), "write"); std::istringstream in(o.str()); json k; nsx_assert(k.read(in), "an edited document is written as JSON"); whole(k, &m); } }
    nsx_reach("tree");
}
