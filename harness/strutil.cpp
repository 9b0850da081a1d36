// String utilities against reference definitions, over short symbolic strings drawn from a small alphabet.
#include <nsx.h>
#include <neolib/core/string_utils.hpp>
#include <string>
#include <vector>
typedef std::string S;
static S text(unsigned lo, unsigned hi, const char* name, const char* alpha) {   // every string of the alphabet, one path per length
    unsigned n = lo == hi ? lo : (unsigned)nsx_choice(lo, hi, name); S s; unsigned k = 0; while (alpha[k]) ++k;
    for (unsigned i = 0; i < n; ++i) { unsigned x = (unsigned)nsx_range(0, k - 1, name); char c = alpha[0]; for (unsigned j = 1; j < k; ++j) c = x == j ? alpha[j] : c; s.push_back(c); }
    return s;
}
static S bytes(unsigned lo, unsigned hi, const char* name) { unsigned n = lo == hi ? lo : (unsigned)nsx_choice(lo, hi, name); S s; for (unsigned i = 0; i < n; ++i) s.push_back((char)nsx_u8(name)); return s; }
static bool in(char c, const S& set) { for (char d : set) if (c == d) return true; return false; }
static void tokensMode(unsigned n) {
    S s = text(0, n, "text", "a,;"); bool skip = nsx_choice(0, 1, "skip"), sub = nsx_choice(0, 1, "subsequence"); std::size_t max = nsx_choice(0, 3, "max");
    S d = sub ? (nsx_choice(0, 1, "delim") ? S(",;") : S(",,")) : S(",;");
    std::vector<S> want; unsigned i = 0, b = 0; bool full = false;
    auto put = [&](unsigned x, unsigned y) { if (max && want.size() == max) { full = true; return; } if (x != y || !skip) want.push_back(s.substr(x, y - x)); };
    if (!s.empty()) {
        while (i < s.size()) { bool hit = sub ? (i + 1 < s.size() && s[i] == d[0] && s[i + 1] == d[1]) : in(s[i], d); if (hit) { put(b, i); i += sub ? 2 : 1; b = i; } else ++i; }
        put(b, (unsigned)s.size());
    }
    std::vector<S> got = neolib::tokens(s, d, max, skip, sub);
    nsx_assert(got.size() == want.size(), "number of tokens");
    bool ok = true; for (unsigned k = 0; k < got.size(); ++k) ok &= got[k] == want[k];
    nsx_assert(ok, "tokens are the pieces between delimiters"); nsx_reach(full ? "token-limit" : "tokens");
}
static void replaceMode(unsigned n) {
    S s = text(0, n, "text", "ab"), f = text(0, 2, "search", "ab"), r = text(0, 3, "replace", "abx");
    S want; bool any = false; if (f.empty()) want = s; else for (unsigned i = 0; i < s.size();) if (s.compare(i, f.size(), f) == 0) { want += r; i += f.size(); any = true; } else want.push_back(s[i++]);
    S t = s; bool b = neolib::replace_string(t, f, r);
    nsx_assert(t == want, "every non-overlapping occurrence is replaced, left to right"); nsx_assert(b == any, "replace_string reports whether it replaced"); if (any) nsx_reach("replaced");
}
static void trimMode(unsigned n) {
    S s = text(0, n, "text", "a \t"), w = nsx_choice(0, 1, "set") ? S(" \t") : S(" "); unsigned b = 0, e = s.size();
    while (b < e && in(s[b], w)) ++b; S l = s.substr(b); unsigned e2 = e; while (e2 > 0 && in(s[e2 - 1], w)) --e2; S t = s.substr(0, e2); unsigned e3 = e; while (e3 > b && in(s[e3 - 1], w)) --e3; S lt = s.substr(b, e3 - b);
    S x = s; nsx_assert(neolib::remove_leading(x, w) == l && x == l, "remove_leading"); x = s; nsx_assert(neolib::remove_trailing(x, w) == t && x == t, "remove_trailing");
    x = s; nsx_assert(neolib::remove_leading_and_trailing(x, w) == lt && x == lt, "remove_leading_and_trailing"); nsx_reach("trim");
    if (!s.empty()) { unsigned p = (unsigned)nsx_choice(0, s.size() - 1, "pos");
        std::size_t first = S::npos, run = S::npos; for (unsigned i = p + 1; i-- > 0;) if (in(s[i], w)) { first = i; break; } for (unsigned i = p + 1; i-- > 0;) { if (!in(s[i], w)) break; run = i; }
        nsx_assert(neolib::reverse_find_first_of(s, w, p) == first, "reverse_find_first_of: nearest occurrence at or before the position"); nsx_assert(neolib::reverse_find_last_of(s, w, p) == run, "reverse_find_last_of: start of the run ending at the position"); }
}
static bool wild(const S& t, unsigned i, const S& p, unsigned j) {   // reference matcher
    bool m[16][16]; unsigned n = t.size(), k = p.size();
    for (unsigned a = n + 1; a-- > 0;) for (unsigned b = k + 1; b-- > 0;) {
        bool star = b < k && p[b] == '*'; bool r;
        if (b == k) r = a == n; else { bool one = a < n && ((p[b] == '?') | (p[b] == t[a])); r = star ? (m[a][b + 1] | (a < n && m[a + 1][b])) : (one & (a < n ? m[a + 1][b + 1] : false)); }
        m[a][b] = r; }
    return m[i][j];
}
static void wildMode(unsigned n, unsigned k) {
    S t = text(0, n, "text", "ab"), p = text(0, k, "pattern", "ab*?");
    bool r = neolib::wildcard_match<char>(t.begin(), t.end(), p.begin(), p.end()), w = wild(t, 0, p, 0);
    nsx_assert(r == w, "wildcard_match: '?' is any one character, '*' any string, everything else itself"); if (r) nsx_reach("match"); else nsx_reach("no-match");
}
static void fsaMode(unsigned n, unsigned k) {
    S t = text(0, n, "text", "ab"), p = text(1, k, "p", "ab"), q = text(1, k, "q", "ab");
    neolib::string_search_fsa fsa; unsigned cnt[2][16] = {}, lens[2] = {}; bool ok = true; const char* base = t.data();
    S* ps[2] = { &p, &q }; bool same = p == q;
    for (int i = 0; i < 2; ++i) fsa.add_pattern(*ps[i], [&, i](char const* b, char const* e) { unsigned o = b - base; ok &= b >= base && e <= base + t.size() && (unsigned)(e - b) == ps[i]->size(); if (o < 16) ++cnt[i][o]; });
    fsa.search(t, false);
    nsx_assert(ok, "a match has the pattern's length and lies in the text");
    for (int i = same; i < 2; ++i) for (unsigned o = 0; o <= t.size(); ++o) { bool w = o + ps[i]->size() <= t.size() && t.compare(o, ps[i]->size(), *ps[i]) == 0; nsx_assert(cnt[i][o] == (w ? 1u : 0u), "every occurrence of every pattern is reported exactly once"); if (w) nsx_reach("found"); }
}
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void unescapeMode(unsigned n, bool all) {
    S s = all ? bytes(0, n, "text") : text(0, n, "text", "\\nxt4aB\""); S want;
    for (unsigned i = 0; i < s.size();) { char c = s[i++]; if (c != '\\' || i == s.size()) { want.push_back(c); continue; } char d = s[i++];
        if (d == 'n') want.push_back('\n'); else if (d == 'r') want.push_back('\r'); else if (d == 't') want.push_back('\t');
        else if (d == 'x') { unsigned v = 0; bool any = false; while (i < s.size() && hexv(s[i]) >= 0) { v = v * 16 + hexv(s[i++]); any = true; } if (any) { want.push_back((char)v); nsx_reach("hex"); } else want += "\\x"; }
        else want.push_back(d); }
    nsx_assert(neolib::unescape(s) == want, "unescape"); nsx_reach("unescape");
}
static void urlMode(unsigned n, bool all) {
    S s = all ? bytes(0, n, "text") : text(0, n, "text", "%4aZ"); S want; bool odd = false;
    for (unsigned i = 0; i < s.size();) { if (s[i] == '%' && i + 2 < s.size()) { int h = hexv(s[i + 1]), l = hexv(s[i + 2]); if (h < 0 || l < 0) { odd = true; want.push_back(s[i++]); } else { want.push_back((char)(h * 16 + l)); i += 3; nsx_reach("escape"); } } else want.push_back(s[i++]); }
    S r = neolib::parse_url_escapes(s);
    nsx_assert(r == want, "parse_url_escapes: %XX is the byte XX, everything else itself"); nsx_reach("url"); if (odd) nsx_reach("not-hex");
}
void nsx_main() {
    unsigned mode = (unsigned)nsx_param(0, 0), n = (unsigned)nsx_param(1, 4), k = (unsigned)nsx_param(2, 3);
    switch (mode) { case 0: tokensMode(n); break; case 1: replaceMode(n); break; case 2: trimMode(n); break; case 3: wildMode(n, k); break; case 4: fsaMode(n, k); break; case 5: unescapeMode(n, k); break; case 6: urlMode(n, k); break; }
}
