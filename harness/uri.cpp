// URIs: parts, escapes, round trip
#include "seq.h"
#include <sstream>
#include <neolib/core/string_utils.hpp>
#include <neolib/io/uri.hpp>
using namespace neolib;
static bool url(uint8_t c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~' || c == ':' || c == '/' || c == '?' || c == '#' || c == '[' || c == ']' || c == '@' || c == '!' || c == '$' || c == '&' || c == '\'' || c == '(' || c == ')' || c == '*' || c == '+' || c == ',' || c == ';' || c == '=' || c == '%'; }
static int hv(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string word(unsigned maxlen, const char* not_, bool plain, unsigned minlen = 0) { std::string s; unsigned n = nsx_choice(minlen, maxlen, "length"); for (unsigned i = 0; i < n; ++i) { uint8_t c = nsx_u8("c"); for (const char* p = not_; *p; ++p) nsx_assume(c != (uint8_t)*p); if (plain) nsx_assume((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '.'); s += (char)c; } return s; }
static void escapes(unsigned n) {
    std::string s = word(n, "%", false); std::string e = uri::escaped(s); unsigned k = 0; for (unsigned i = 0; i < s.size(); ++i) { uint8_t c = (uint8_t)s[i]; if (url(c)) { nsx_assert(k < e.size() && e[k] == s[i], "a URL character stands for itself"); ++k; } else { nsx_assert(k + 3 <= e.size() && e[k] == '%' && hv((uint8_t)e[k + 1]) == c >> 4 && hv((uint8_t)e[k + 2]) == (c & 15), "any other byte is escaped in hexadecimal"); k += 3; nsx_reach("escaped"); } } nsx_assert(k == e.size(), "nothing else");
    nsx_assert(uri::unescaped(e) == s, "unescaping gives the text back"); nsx_assert(uri::escaped(e) == e, "escaping an escaped text changes nothing"); nsx_reach("escapes");
}
static void decode(unsigned pre, unsigned post) { // an escape, either case of digit, anywhere
    std::string a = word(pre, "%", false), b = word(post, "%", false); uint8_t h = nsx_u8("h"), l = nsx_u8("l"); nsx_assume(hv(h) >= 0 && hv(l) >= 0); std::string t = a; t += '%'; t += (char)h; t += (char)l; t += b; std::string x = a; x += (char)(hv(h) * 16 + hv(l)); x += b; nsx_assert(uri::unescaped(t) == x, "an escape stands for its byte"); if (b.empty()) nsx_reach("at the end"); nsx_reach("decode");
}
static void expect(const uri& u, const std::string& sch, bool hu, const std::string& usr, const std::string& h, bool hp, uint32_t port, const std::string& p, const std::string& q, const std::string& f) {
    nsx_assert(u.scheme() == sch, "scheme"); nsx_assert(u.authority().user_information().has_value() == hu && (!hu || *u.authority().user_information() == usr), "user information"); nsx_assert(h.empty() || (u.authority().host().has_value() && *u.authority().host() == h), "host"); nsx_assert(u.authority().port().has_value() == hp && (!hp || *u.authority().port() == port), "port"); nsx_assert(u.path() == p, "path"); nsx_assert(u.query() == q, "query"); nsx_assert(u.fragment() == f, "fragment");
}
// one part symbolic, the others from a few shapes
static void parts(unsigned which, unsigned n) {
    bool hu = nsx_choice(0, 1, "user?"), hp = nsx_choice(0, 1, "port?"), hpath = nsx_choice(0, 1, "path?"), hq = nsx_choice(0, 1, "query?"), hf = nsx_choice(0, 1, "fragment?");
    std::string sch = "http", usr = "me", h = "a.b", p = "p/q", q = "k=v", f = "top"; uint32_t port = 80;
    switch (which) { case 0: hpath = true; p = word(n, "?#%", false); break; case 1: hq = true; q = word(n, "#%", false); break; case 2: hf = true; f = word(n, "%", false); break; case 3: sch = word(n, "", true, 1); h = word(n, "", true, 1); break; case 4: hu = true; usr = word(n, "", true); break; case 5: hp = true; port = nsx_u16("port"); nsx_assume(port < (uint32_t)nsx_param(3, 65536)); break;
    case 6: hq = true; q = "u=http://x/y?z=/&w=" + word(n, "#%", true); break; case 7: hf = true; f = "a?b/c://d#e" + word(n, "", true); break; }
    std::string t = sch + "://"; if (hu) t += usr + "@"; t += h; if (hp) t += ":" + std::to_string(port); if (hpath) t += "/" + p; if (hq) t += "?" + q; if (hf) t += "#" + f; if (!hpath) p.clear(); if (!hq) q.clear(); if (!hf) f.clear();
    uri u(t); expect(u, sch, hu, usr, h, hp, port, p, q, f);
    std::string s = u.to_string(); uri v(s); expect(v, sch, hu, usr, h, hp, port, p, q, f); nsx_assert(v.to_string() == s, "text of the text");
    uri w; w.set_scheme(sch); w.set_authority(u.authority()); w.set_path(p); w.set_query(q); w.set_fragment(f); expect(w, sch, hu, usr, h, hp, port, p, q, f); nsx_assert(w.to_string() == s, "built from parts"); nsx_reach("parts");
}
static void anything(unsigned n) { // any text: parsed or refused, never out of bounds; with no delimiter it is all host
    std::string t; if (nsx_param(2, 0)) { unsigned k = nsx_choice(0, n, "length"); for (unsigned i = 0; i < k; ++i) t += ":/?#@1a%"[nsx_choice(0, 7, "c")]; } else t = word(n, "", false); bool th = false; try { uri u(t); std::string s = u.to_string(); nsx_observe(s.size()); nsx_reach("parsed"); } catch (const std::exception&) { th = true; nsx_reach("refused"); } bool colon = t.find(':') != std::string::npos; nsx_assert(colon || !th, "only a bad port is refused"); }
static void ports() { uint32_t v = nsx_u32("v"); nsx_assume(v < (uint32_t)nsx_param(1, 200000)); bool th = false; try { uri_authority a("h:" + std::to_string(v)); nsx_assert(a.port() && *a.port() == v && *a.host() == "h", "port"); } catch (const std::out_of_range&) { th = true; } nsx_assert(th == (v > 65535), "refused exactly when it does not fit"); nsx_reach(th ? "big" : "fits"); }
extern "C" void nsx_main() { switch (nsx_param(0, 0)) { case 0: escapes(nsx_param(1, 1)); break; case 1: decode(nsx_param(1, 1), nsx_param(2, 1)); break; case 2: parts(nsx_param(1, 0), nsx_param(2, 1)); break; case 3: anything(nsx_param(1, 2)); break; case 4: ports(); break; } }
