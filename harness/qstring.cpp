// neolib::quick_string (viewing or owning) and neolib::string against std::string semantics, over short symbolic strings.
#include <nsx.h>
#include <neolib/core/string.hpp>
#include <neolib/core/quick_string.hpp>
#include <string>
#include <stdexcept>
typedef std::string S;
typedef neolib::quick_string Q;
static S text(unsigned lo, unsigned hi, const char* name) {
    unsigned n = lo == hi ? lo : (unsigned)nsx_choice(lo, hi, name); S s;
    for (unsigned i = 0; i < n; ++i) s.push_back((char)('a' + nsx_range(0, 2, name)));
    return s;
}
static int sign(int x) { return (x > 0) - (x < 0); }
static int sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
// reference definitions
typedef std::size_t Z; static const Z N = S::npos;
static bool eqAt(const S& s, Z p, const S& t) { if (p > s.size() || t.size() > s.size() - p) return false; bool r = true; for (Z i = 0; i < t.size(); ++i) r &= s[p + i] == t[i]; return r; }
static bool in(char c, const S& t) { bool r = false; for (char d : t) r |= c == d; return r; }
static Z rfindR(const S& s, const S& t, Z p) { for (Z i = s.size() + 1; i-- > 0;) if (i <= p && eqAt(s, i, t)) return i; return N; }
static Z findR(const S& s, const S& t, Z p) { for (Z i = p; i <= s.size(); ++i) if (eqAt(s, i, t)) return i; return N; }
static Z firstR(const S& s, const S& t, Z p, bool want) { for (Z i = p; i < s.size(); ++i) if (in(s[i], t) == want) return i; return N; }
static Z lastR(const S& s, const S& t, Z p, bool want) { for (Z i = s.size(); i-- > 0;) if (i <= p && in(s[i], t) == want) return i; return N; }
static int cmpR(const S& a, const S& b) { for (Z i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; return a.size() < b.size() ? -1 : a.size() > b.size(); }
static S cut(const S& s, Z p, Z n) { S r; for (Z i = p; i < s.size() && i - p < n; ++i) r.push_back(s[i]); return r; }
static void same(const Q& q, const S& s) {
    nsx_assert(q.size() == s.size() && q.length() == s.size() && q.empty() == s.empty(), "size");
    bool ok = true; Z i = 0; for (auto it = q.cbegin(); it != q.cend(); ++it, ++i) ok &= *it == s[i];
    nsx_assert(ok && i == s.size(), "characters by iteration"); ok = true; i = 0; for (auto it = q.crbegin(); it != q.crend(); ++it, ++i) ok &= *it == s[s.size() - 1 - i];
    nsx_assert(ok && i == s.size(), "characters by reverse iteration"); ok = true;
    for (i = 0; i < s.size(); ++i) ok &= (q[i] == s[i]) & (q.at(i) == s[i]) & (q.data()[i] == s[i]); nsx_assert(ok, "characters by index");
    if (!s.empty()) nsx_assert(q.back() == s[s.size() - 1], "back");
    bool threw = false; try { (void)q.at(s.size()); } catch (const std::out_of_range&) { threw = true; } nsx_assert(threw, "at() checks its index");
    nsx_assert(q.to_std_string() == s && q.to_std_string_view() == std::string_view(s), "conversion to std types");
}
static const char* kinds[] = { "view", "view-z", "view-range", "owned", "sub", "sub-clamped", "copy", "moved", "char*range", "iterators", "moved-from" };
// a quick_string made one of the ways there are, holding s (buf outlives it)
struct Made { S buf, pad; Q outer; Made(const S& s) : buf(s), pad("x" + s + "y") , outer(pad.data(), pad.size()) {} };
static Q make(Made& m, unsigned kind) {
    const S& s = m.buf;
    switch (kind) {
    case 0: return Q(std::string_view(s));
    case 1: return Q(s.c_str());
    case 2: return s.empty() ? Q(std::string_view(s)) : Q(s.begin(), s.end());
    case 3: return Q(s);
    case 4: return Q(m.outer, 1, s.size());
    case 5: { Q o(m.outer, 0, m.pad.size() - 1); return Q(o, 1, 50); }
    case 6: { Q o(s.data(), s.size()); Q r(o, std::allocator<char>()); return r; }
    case 7: { Q o(s); Q r(std::move(o)); return r; }
    case 8: return Q(m.buf.data(), m.buf.data() + m.buf.size());
    case 9: return Q(m.pad.begin() + 1, m.pad.end() - 1);
    default: { Q o(s), r("elsewhere"); r = o; o += "z"; return r; }
    }
}
static void queryMode(unsigned n, unsigned k) {
    S s = text(0, n, "text"), t = text(0, k, "other"); unsigned kind = (unsigned)nsx_choice(0, 10, "kind"); Made m(s); const Q q = make(m, kind); Made mo(t); const Q o = make(mo, nsx_choice(0, 1, "other-kind") ? 3 : 0);
    unsigned what = (unsigned)nsx_choice(0, 8, "query"); Z p = nsx_choice(0, n + 2, "pos"); if (p == n + 2) p = N; char c = t.empty() ? 'a' : t[0]; S cs(1, c); const char* z = t.c_str();
    switch (what) {
    case 0: same(q, s); break;
    case 1: { Z w = findR(s, t, p); nsx_assert(q.find(o, p) == w && q.find(t, p) == w && q.find(z, p) == w && q.find(z, p, t.size()) == w && q.find(c, p) == findR(s, cs, p), "find"); break; }
    case 2: { Z w = rfindR(s, t, p); nsx_assert(q.rfind(o, p) == w && q.rfind(t, p) == w && q.rfind(z, p) == w && q.rfind(z, p, t.size()) == w && q.rfind(c, p) == rfindR(s, cs, p), "rfind"); break; }
    case 3: { Z w = firstR(s, t, p, true); nsx_assert(q.find_first_of(o, p) == w && q.find_first_of(t, p) == w && q.find_first_of(z, p) == w && q.find_first_of(z, p, t.size()) == w && q.find_first_of(c, p) == firstR(s, cs, p, true), "find_first_of"); break; }
    case 4: { Z w = lastR(s, t, p, true); nsx_assert(q.find_last_of(o, p) == w && q.find_last_of(t, p) == w && q.find_last_of(z, p) == w && q.find_last_of(z, p, t.size()) == w && q.find_last_of(c, p) == lastR(s, cs, p, true), "find_last_of"); break; }
    case 5: { Z w = firstR(s, t, p, false); nsx_assert(q.find_first_not_of(o, p) == w && q.find_first_not_of(t, p) == w && q.find_first_not_of(z, p) == w && q.find_first_not_of(z, p, t.size()) == w && q.find_first_not_of(c, p) == firstR(s, cs, p, false), "find_first_not_of"); break; }
    case 6: { Z w = lastR(s, t, p, false); nsx_assert(q.find_last_not_of(o, p) == w && q.find_last_not_of(t, p) == w && q.find_last_not_of(z, p) == w && q.find_last_not_of(z, p, t.size()) == w && q.find_last_not_of(c, p) == lastR(s, cs, p, false), "find_last_not_of"); break; }
    case 7: {
        int w = cmpR(s, t); nsx_assert(sign(q.compare(o)) == w && sign(q.compare(t)) == w && sign(q.compare(z)) == w, "compare"); nsx_assert((q == o) == (w == 0) && (q != o) == (w != 0) && sign(q <=> o) == w && (q < o) == (w < 0), "comparison operators");
        Z l = nsx_choice(0, n + 1, "len"); if (p <= s.size()) { S u = cut(s, p, l); w = cmpR(u, t); nsx_assert(sign(q.compare(p, l, t)) == w && sign(q.compare(p, l, z)) == w && sign(q.compare(p, l, z, t.size())) == w, "compare of a substring"); if (!t.empty()) nsx_assert(sign(q.compare(p, l, t, 1, l)) == cmpR(u, cut(t, 1, l)), "compare of two substrings");
            nsx_assert(q.substr(p, l) == u, "substr"); char b[16]; Z got = q.copy(b, l, p); bool ok = got == u.size(); for (Z i = 0; i < u.size(); ++i) ok &= b[i] == u[i]; nsx_assert(ok, "copy"); same(Q(q, p, l), u); }
        else { bool threw = false; try { (void)q.substr(p, l); } catch (const std::out_of_range&) { threw = true; } nsx_assert(threw, "substr checks its position"); }
        nsx_assert(hash_value(q) == hash_value(Q(s)), "hash depends on the characters only"); break; }
    default: { bool w = eqAt(s, 0, t); nsx_assert(q.starts_with(std::string_view(t)) == w && q.starts_with(z) == w && q.starts_with(c) == eqAt(s, 0, cs), "starts_with");
        nsx_assert((q + t) == s + t && (q + z) == s + t && (t + q) == t + s && (z + q) == t + s && (q + c) == s + cs && (c + q) == cs + s, "concatenation"); same(q + o, s + t); break; }
    }
    S z0(q.c_str()); nsx_assert(z0 == s, "c_str"); same(q, s); nsx_assert(m.buf == s, "queries leave the viewed text alone"); nsx_reach(kind == 3 || kind == 7 ? "owner" : "view"); nsx_tag(kinds[kind]);
}
static Z at(Q& q, Q::iterator i) { return (Z)(i - q.begin()); }
static S splice(const S& s, Z p, Z l, const S& t) { return cut(s, 0, p) + t + (p + l <= s.size() ? cut(s, p + l, N) : S()); }
// the remaining overloads: parts of the argument, positions given by iterators, the string itself as the argument
static void step2(Q& q, S& s, const S& t, const Q& o) {
    unsigned op = (unsigned)nsx_choice(0, 10, "op"), how = 0; const char* z = t.c_str(); char c = t.empty() ? 'z' : t[0]; Z p = 0, l = 0, tp = 0, tl = 0; S u;
    auto pos = [&] { p = nsx_choice(0, s.size(), "pos"); }; auto len = [&] { l = nsx_choice(0, 2, "len"); }; auto part = [&] { tp = nsx_choice(0, t.size(), "part"); tl = nsx_choice(0, 1, "part-length"); if (tl && nsx_choice(0, 1, "all")) tl = N; u = cut(t, tp, tl); };
    auto range = [&] { p = nsx_choice(0, s.size(), "pos"); l = nsx_choice(0, s.size() - p, "len"); }; auto pick = [&](unsigned n) { how = (unsigned)nsx_choice(0, n, "how"); };
    switch (op) {
    case 0: part(); pick(1); if (how) q.append(o, tp, tl); else q.append(t, tp, tl); s += u; break;
    case 1: part(); pick(1); if (how) q.assign(o, tp, tl); else q.assign(t, tp, tl); s = u; break;
    case 2: pick(1); if (how) q.append(t).append(z); else q.assign(t).append(z); s = how ? s + t + t : t + t; break;
    case 3: pick(1); if (how) q.assign(z); else q.assign(t.begin(), t.end()); s = t; break;
    case 4: part(); pos(); pick(1); if (how) q.insert(p, o, tp, tl); else q.insert(p, t, tp, tl); s = splice(s, p, 0, u); break;
    case 5: { pos(); pick(2); len(); auto w = q.begin(); Q::const_iterator b = w + p; Q::iterator r; if (how == 0) { r = q.insert(b, c); u = S(1, c); } else if (how == 1) { r = q.insert(b, l, c); u = S(l, c); } else { r = q.insert(b, t.begin(), t.end()); u = t; } nsx_assert(at(q, r) == p, "insert returns the position"); s = splice(s, p, 0, u); break; }
    case 6: { range(); auto b = q.begin(); Q::iterator r; if (l == 1 && nsx_choice(0, 1, "one")) r = q.erase(b + p); else r = q.erase(b + p, b + (p + l)); nsx_assert(at(q, r) == p, "erase returns the position"); s = splice(s, p, l, S()); break; }
    case 7: { part(); pos(); len(); pick(1); if (how) q.replace(p, l, o, tp, tl); else q.replace(p, l, t, tp, tl); s = splice(s, p, l, u); break; }
    case 8: { range(); pick(5); Z m = how == 5 ? nsx_choice(0, 2, "count") : 0; if (how == 5 && nsx_choice(0, 1, "at")) { q.replace(p, l, m, c); s = splice(s, p, l, S(m, c)); break; } auto b = q.begin(); auto e = b + (p + l); b = b + p; if (how == 0) q.replace(b, e, o); else if (how == 1) q.replace(b, e, t); else if (how == 2) q.replace(b, e, z, t.size()); else if (how == 3) q.replace(b, e, z); else if (how == 4) q.replace(b, e, t.begin(), t.end()); else q.replace(b, e, m, c); s = splice(s, p, l, how == 5 ? S(m, c) : t); break; }
    case 9: { pick(5); S w = s; if (how == 0) { q += q; s += w; } else if (how == 1) { q = static_cast<const Q&>(q); } else if (how == 2) { q.append(q, 1 < w.size() ? 1 : 0, 1); s += cut(w, 1 < w.size() ? 1 : 0, 1); } else if (how == 3) { q.insert(0, q); s = w + w; } else if (how == 4) { q.assign(q); } else { q.replace(0, 1, q); s = splice(w, 0, 1, w); if (w.empty()) s = w; } break; }
    default: { pick(4); if (how == 0) { q.shrink_to_fit(); q.reserve(5); } else if (how == 1) { S& r = q; nsx_assert(r == s, "as a std::string"); r += t; s += t; } else if (how == 2) { if (!s.empty()) { q.at(s.size() - 1) = c; s[s.size() - 1] = c; } } else if (how == 3) { if (!s.empty()) { *q.rbegin() = c; s[s.size() - 1] = c; Z k = s.size(); for (auto i = q.rbegin(); i != q.rend(); ++i) nsx_assert(*i == s[--k], "backwards"); nsx_assert(k == 0, "all of it"); } } else { if (!s.empty()) { q.back() = c; s[s.size() - 1] = c; } bool th = false; try { q.at(s.size()) = c; } catch (const std::out_of_range&) { th = true; } nsx_assert(th, "at() checks its index"); } break; }
    }
}
static void step(Q& q, S& s, const S& t, const Q& o, unsigned n) {
    if (nsx_param(4, 0) == 1 || (nsx_param(4, 0) == 2 && nsx_choice(0, 1, "overloads"))) return step2(q, s, t, o);
    unsigned op = (unsigned)nsx_choice(0, 23, "op"); const char* z = t.c_str(); char c = t.empty() ? 'z' : t[0]; Z p = 0, l = 0;
    auto pos = [&] { p = nsx_choice(0, s.size(), "pos"); }; auto len = [&] { l = nsx_choice(0, 2, "len"); };
    switch (op) {
    case 0: q += o; s += t; break; case 1: q += t; s += t; break; case 2: q += z; s += t; break; case 3: q += c; s += c; break;
    case 4: q.append(o); s += t; break; case 5: q.append(z, t.size()); s += t; break; case 6: len(); q.append(l, c); s.append(l, c); break; case 7: q.append(t.begin(), t.end()); s += t; break;
    case 8: q.push_back(c); s.push_back(c); break; case 9: q.assign(o); s = t; break; case 10: q.assign(z, t.size()); s = t; break; case 11: len(); q.assign(l, c); s = S(l, c); break;
    case 12: { pos(); S u = cut(s, 0, p) + t + cut(s, p, N); unsigned how = (unsigned)nsx_choice(0, 3, "how"); if (how == 0) q.insert(p, o); else if (how == 1) q.insert(p, t); else if (how == 2) q.insert(p, z); else q.insert(p, z, t.size()); s = u; break; }
    case 13: { pos(); len(); q.insert(p, l, c); s = cut(s, 0, p) + S(l, c) + cut(s, p, N); break; }
    case 14: { pos(); q.erase(p); s = cut(s, 0, p); break; }
    case 15: { pos(); len(); q.erase(p, l); s = cut(s, 0, p) + (p + l <= s.size() ? cut(s, p + l, N) : S()); break; }
    case 16: { pos(); len(); S u = cut(s, 0, p) + t + (p + l <= s.size() ? cut(s, p + l, N) : S()); unsigned how = (unsigned)nsx_choice(0, 3, "how"); if (how == 0) q.replace(p, l, o); else if (how == 1) q.replace(p, l, t); else if (how == 2) q.replace(p, l, z); else q.replace(p, l, z, t.size()); s = u; break; }
    case 17: { len(); Z m = nsx_choice(0, n + 1, "size"); q.resize(m, c); while (s.size() > m) s.pop_back(); while (s.size() < m) s.push_back(c); break; }
    case 18: q.clear(); s.clear(); break;
    case 19: if (!s.empty()) { p = nsx_choice(0, s.size() - 1, "pos"); q[p] = c; s[p] = c; } break;
    case 20: if (!s.empty()) { p = nsx_choice(0, s.size() - 1, "pos"); *(q.begin() + p) = c; s[p] = c; } break;
    case 21: q = c; s = S(1, c); break;
    case 22: { Q x(o); q.swap(x); same(x, s); s = t; break; }
    default: { unsigned how = (unsigned)nsx_choice(0, 2, "how"); if (how == 0) q = o; else if (how == 1) q = z; else { len(); q = Q(l, c); s = S(l, c); break; } s = t; break; }
    }
}
static void historyMode(unsigned n, unsigned k, unsigned steps) {
    S s0 = text(0, n, "text"), t = text(0, k, "other"), s = s0; unsigned kind = (unsigned)nsx_choice(0, 3, "kind"); static const unsigned ks[] = { 0, 3, 4, 7 }; kind = ks[kind];
    Made m(s); Made mo(t); { Q q = make(m, kind); const Q before(q); const Q o = make(mo, nsx_choice(0, 1, "other-kind") ? 3 : 0);
    for (unsigned i = 0; i < steps; ++i) step(q, s, t, o, n);
    same(q, s); S z0(q.c_str()); nsx_assert(z0 == s, "c_str"); same(before, s0); same(o, t); nsx_assert(m.buf == s0 && m.pad == "x" + s0 + "y" && mo.buf == t, "the viewed text is never modified"); }
    nsx_reach("history");
}
#ifdef NSTRING
typedef neolib::string NS;
static void sameN(const NS& q, const S& s) {
    const neolib::i_string& i = q; nsx_assert(i.size() == s.size() && i.empty() == s.empty() && i.capacity() >= i.size(), "size");
    bool ok = true; Z k = 0; for (auto it = i.begin(); it != i.end(); ++it, ++k) ok &= *it == s[k]; nsx_assert(ok && k == s.size(), "characters by iteration"); ok = true;
    for (k = 0; k < s.size(); ++k) ok &= (i[k] == s[k]) & (i.at(k) == s[k]) & (i.cdata()[k] == s[k]); nsx_assert(ok && i.c_str()[s.size()] == 0, "characters by index");
    nsx_assert(i.to_std_string() == s && i.to_std_string_view() == s && q.as_std_string() == s, "conversion to std types");
    if (!s.empty()) nsx_assert(i.front() == s[0] && i.back() == s[s.size() - 1], "front and back");
    bool threw = false; try { (void)i.at(s.size()); } catch (const std::out_of_range&) { threw = true; } nsx_assert(threw, "at() checks its index");
}
static void stepN(NS& q, S& s, const S& t, unsigned n) {
    neolib::i_string& i = q; NS o(t); const neolib::i_string& io = o; unsigned op = (unsigned)nsx_choice(0, 18, "op"); char c = t.empty() ? 'z' : t[0]; Z p = 0;
    switch (op) {
    case 0: q += io; s += t; break; case 1: i.append(io); s += t; break; case 2: i.append(t.data(), t.size()); s += t; break; case 3: i.push_back(c); s.push_back(c); break;
    case 4: if (!s.empty()) { i.pop_back(); s.pop_back(); } break;
    case 5: i.assign(io); s = t; break; case 6: i = io; s = t; break; case 7: i.assign(t.data(), t.size()); s = t; break; case 8: q = NS(t); s = t; break;
    case 9: i.clear(); s.clear(); break;
    case 10: { Z m = nsx_choice(0, n + 1, "size"); if (nsx_choice(0, 1, "how")) i.resize(m, c); else { i.resize(m); c = 0; } while (s.size() > m) s.pop_back(); while (s.size() < m) s.push_back(c); break; }
    case 11: { p = nsx_choice(0, s.size(), "pos"); auto r = i.insert(i.begin() + p, c); nsx_assert((Z)(r - i.begin()) == p && *r == c, "insert returns the inserted character"); s = cut(s, 0, p) + S(1, c) + cut(s, p, N); break; }
    case 12: if (!s.empty()) { p = nsx_choice(0, s.size() - 1, "pos"); Z l = nsx_choice(0, s.size() - p, "len"); auto r = l == 1 ? i.erase(i.begin() + p) : i.erase(i.begin() + p, i.begin() + (p + l)); nsx_assert((Z)(r - i.begin()) == p, "erase returns the following position"); s = cut(s, 0, p) + cut(s, p + l, N); } break;
    case 13: { S f = text(1, 2, "search"); S w; for (Z k = 0; k < s.size();) if (eqAt(s, k, f)) { w += t; k += f.size(); } else w.push_back(s[k++]); i.replace_all(NS(f), io); s = w; break; }
    case 15: { unsigned how = (unsigned)nsx_choice(0, 3, "how"); if (!s.empty()) { if (how == 0) { i.front() = c; s[0] = c; } else if (how == 1) { i.back() = c; s[s.size() - 1] = c; } else if (how == 2) { i.at(s.size() - 1) = c; s[s.size() - 1] = c; } else { i.data()[0] = c; s[0] = c; } } break; }
    case 16: { unsigned how = (unsigned)nsx_choice(0, 4, "how"); if (how == 0) { q = std::string_view(t); s = t; } else if (how == 1) { q = neolib::quick_string(t); s = t; } else if (how == 2) { q.append(o); s += t; } else if (how == 3) { i = t; s = t; } else { i.reserve(9); i.append(t.c_str()); i.append(std::string_view(t)); s = s + t + t; } break; }
    case 17: { unsigned how = (unsigned)nsx_choice(0, 4, "how"); if (how == 0) { NS x(2, c); s = S(2, c); q = x; } else if (how == 1) { NS x(t.begin(), t.end()); s = t; q = std::move(x); } else if (how == 2) { NS x{ std::string_view(t) }; s = t; q = x; } else if (how == 3) { NS x{ neolib::quick_string(std::string_view(t)) }; s = t; q = x; } else { NS x(io); s = t; q = x; } break; }
    case 14: if (!s.empty()) { p = nsx_choice(0, s.size() - 1, "pos"); i[p] = c; s[p] = c; } break;
    default: { unsigned how = (unsigned)nsx_choice(0, 2, "how"); if (how == 0) { q = q; } else if (how == 1) { i.assign(i); } else { i.append(i); s += S(s); } break; }
    }
}
static void nMode(unsigned n, unsigned k, unsigned steps) {
    S s = text(0, n, "text"), t = text(0, k, "other"); NS q = nsx_choice(0, 1, "how") ? NS(s) : NS(s.data(), s.size()); S s0 = s; NS before(q);
    { int w = cmpR(s, t); NS o(t); const neolib::i_string& io = o; nsx_assert((q == o) == (w == 0) && (q == io) == (w == 0) && (io == q) == (w == 0) && sign(q <=> o) == w && sign(q <=> io) == w && sign(io <=> q) == -w, "comparison"); sameN(q + o, s + t); }
    for (unsigned i = 0; i < steps; ++i) stepN(q, s, t, n);
    sameN(q, s); sameN(before, s0); { NS x(std::move(q)); sameN(x, s); } nsx_reach("string");
}
#endif
void nsx_main() {
    unsigned m = (unsigned)nsx_param(0, 0), n = (unsigned)nsx_param(1, 3), k = (unsigned)nsx_param(2, 2), st = (unsigned)nsx_param(3, 1);
#ifdef NSTRING
    if (m == 2) nMode(n, k, st);
#endif
    if (m == 0) queryMode(n, k); else if (m == 1) historyMode(n, k, st);
}
