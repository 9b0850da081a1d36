// JSON: acceptance and values against a reference RFC 8259 parser, and writing then reading back.
#include <nsx.h>
#include <neolib/file/json.hpp>
#include <sstream>
#include <string>
#include <vector>
#ifndef SYNTAX
#define SYNTAX Standard
#endif
typedef neolib::basic_json<neolib::json_syntax::SYNTAX> json;
typedef json::json_value jvalue;
typedef std::string S;
static const bool strict = neolib::json_syntax::SYNTAX == neolib::json_syntax::StandardNoKeywords, standard = strict || neolib::json_syntax::SYNTAX == neolib::json_syntax::Standard;
enum Kind { OBJ, ARR, INT, REAL, STR, TRUE_, FALSE_, NUL, WORD };
struct Val { Kind k; bool named = false; S name, s; bool neg = false; std::uint64_t mag = 0; std::vector<Val> kids; };
// reference parser; 0 = not a document, 1 = a document, 2 = no claim
struct Ref {
    const S& t; unsigned i = 0; bool dunno = false; Ref(const S& t) : t(t) {}
    int at(unsigned k) const { return k < t.size() ? (unsigned char)t[k] : -1; }
    void ws() { while (at(i) == ' ' || at(i) == '\n' || at(i) == '\t' || at(i) == '\r') ++i; }
    static int hex(int c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
    static void utf8(unsigned c, S& o) { if (c < 0x80) o.push_back((char)c); else if (c < 0x800) { o.push_back((char)(0xC0 | c >> 6)); o.push_back((char)(0x80 | (c & 63))); } else if (c < 0x10000) { o.push_back((char)(0xE0 | c >> 12)); o.push_back((char)(0x80 | ((c >> 6) & 63))); o.push_back((char)(0x80 | (c & 63))); } else { o.push_back((char)(0xF0 | c >> 18)); o.push_back((char)(0x80 | ((c >> 12) & 63))); o.push_back((char)(0x80 | ((c >> 6) & 63))); o.push_back((char)(0x80 | (c & 63))); } }
    bool u4(unsigned& v) { v = 0; for (int k = 0; k < 4; ++k) { int h = hex(at(i)); if (h < 0) return false; v = v * 16 + h; ++i; } return true; }
    bool str(S& o) {
        if (at(i) != '"') return false; ++i; 
        for (;;) { int c = at(i); if (c < 0x20) return false; ++i; if (c == '"') return true; if (c != '\\') { o.push_back((char)c); continue; }
            c = at(i); if (c < 0) return false; ++i;
            if (c == '"' || c == '\\' || c == '/') o.push_back((char)c); else if (c == 'b') o.push_back('\b'); else if (c == 'f') o.push_back('\f'); else if (c == 'n') o.push_back('\n'); else if (c == 'r') o.push_back('\r'); else if (c == 't') o.push_back('\t');
            else if (c == 'u') { unsigned v; if (!u4(v)) return false; if (v >= 0xDC00 && v < 0xE000) dunno = true; if (v >= 0xD800 && v < 0xDC00) { unsigned l; if (at(i) == '\\' && at(i + 1) == 'u') { i += 2; if (!u4(l)) return false; if (l < 0xDC00 || l >= 0xE000) dunno = true; utf8(0x10000 + ((v - 0xD800) << 10) + (l - 0xDC00), o); } else dunno = true; } else utf8(v, o); }
            else return false; }
    }
    bool digit() const { int c = at(i); return c >= '0' && c <= '9'; }
    bool value(Val& v, unsigned depth = 0) {
        int c = at(i);
        if (c == '"') { v.k = STR; return str(v.s); }
        if (c == '[' || c == '{') { v.k = c == '[' ? ARR : OBJ; ++i; ws(); if (at(i) == (c == '[' ? ']' : '}')) { ++i; return true; }
            for (;;) { Val e; ws(); if (c == '{') { e.named = true; if (!str(e.name)) return false; ws(); if (at(i) != ':') return false; ++i; ws(); } 
                if (!value(e, depth + 1)) return false; v.kids.push_back(e); ws(); if (at(i) == ',') { ++i; continue; } if (at(i) == (c == '[' ? ']' : '}')) { ++i; return true; } return false; } }
        if (c == '-' || digit()) { if (c == '-') { v.neg = true; ++i; } if (!digit()) return false; v.k = INT; if (at(i) == '0') { ++i; if (digit()) { dunno = true; while (digit()) ++i; } } else while (digit()) { v.mag = v.mag * 10 + (at(i) - '0'); ++i; }
            v.s.clear(); if (at(i) == '.') { v.k = REAL; ++i; if (!digit()) return false; while (digit()) ++i; } if (at(i) == 'e' || at(i) == 'E') { v.k = REAL; ++i; if (at(i) == '+' || at(i) == '-') ++i; if (!digit()) return false; while (digit()) ++i; } return true; }
        static const char* words[] = { "true", "false", "null" }; for (int w = 0; w < 3; ++w) { unsigned n = 0; while (words[w][n] && at(i + n) == words[w][n]) ++n; if (!words[w][n]) { i += n; v.k = (Kind)(TRUE_ + w); return true; } }
        return false;
    }
    bool document(Val& v) { ws(); if (!value(v)) return false; ws(); return i == t.size(); }
};
static bool bareWord(const S& s) {   // Standard accepts bare words as keywords
    bool q = false; for (unsigned i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (q) { if (c == '\\') ++i; else if (c == '"') q = false; } else if (c == '"') q = true; else if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '@' || c == '$' || c > 127) return true; }
    return false;
}
static void same(const jvalue& v, const Val& r) {
    nsx_assert(v.has_name() == r.named, "members have names and elements do not"); if (r.named) nsx_assert(v.name().to_std_string() == r.name, "member name");
    using neolib::json_type; json_type t = v.type();
    switch (r.k) {
    case OBJ: case ARR: { nsx_assert(t == (r.k == OBJ ? json_type::Object : json_type::Array), "object or array"); unsigned n = 0; for (auto& k : v) { nsx_assert(n < r.kids.size(), "no extra children"); same(k, r.kids[n]); ++n; } nsx_assert(n == r.kids.size() && v.size() == n, "every child"); break; }
    case STR: nsx_assert(t == json_type::String && v.text().to_std_string() == r.s, "string value"); break;
    case INT: { bool ok = false; std::int64_t i = 0; std::uint64_t u = 0; bool sgn = true;
        if (t == json_type::Int) i = std::get<std::int32_t>(*v); else if (t == json_type::Int64) i = std::get<std::int64_t>(*v); else if (t == json_type::Uint) { u = std::get<std::uint32_t>(*v); sgn = false; } else if (t == json_type::Uint64) { u = std::get<std::uint64_t>(*v); sgn = false; } else nsx_fail("an integer is held as an integer");
        ok = r.neg ? sgn && (std::uint64_t)i == 0 - r.mag : (sgn ? (std::uint64_t)i == r.mag : u == r.mag); nsx_assert(ok, "integer value"); break; }
    case REAL: nsx_assert(t == json_type::Double, "a number with fraction or exponent is a double"); break;
    case TRUE_: case FALSE_: nsx_assert(t == json_type::Bool && std::get<bool>(*v) == (r.k == TRUE_), "boolean value"); break;
    case NUL: nsx_assert(t == json_type::Null, "null"); break;
    default: break;
    }
}
static bool hasReal(const Val& v) { if (v.k == REAL) return true; for (unsigned i = 0; i < v.kids.size(); ++i) if (hasReal(v.kids[i])) return true; return false; }
static void check(const S& s, bool roundtrip, const char* before = 0, const char* prefix = "") {
    Ref ref(s); Val want; bool ok = ref.document(want); if (ref.dunno) { nsx_reach("no claim"); return; }
    std::istringstream in(prefix + s); json j; if (before) { std::istringstream b{ S(before) }; j.read(b); } bool got = j.read(in);
    if (ok) { nsx_assert(got, "every JSON document is accepted"); same(j.root(), want); nsx_reach("accepted"); }
    else { if (strict || (standard && !bareWord(s))) nsx_assert(!got, "text that is not JSON is rejected"); nsx_reach("rejected"); return; }
    if (roundtrip && !hasReal(want)) { std::ostringstream out; nsx_assert(j.write(out), "write"); std::istringstream in2(out.str()); json k; 
#ifdef DUMP
        nsx_print(out.str().c_str());
#endif
        nsx_assert(k.read(in2), "what was written is accepted"); same(k.root(), want); nsx_reach("round-trip"); }
}
static S text(unsigned lo, unsigned hi, const char* alpha) {
    unsigned n = lo == hi ? lo : (unsigned)nsx_choice(lo, hi, "length"); S s; unsigned k = 0; while (alpha && alpha[k]) ++k;
    for (unsigned i = 0; i < n; ++i) { if (!alpha) { s.push_back((char)nsx_u8("byte")); continue; } unsigned x = (unsigned)nsx_range(0, k - 1, "char"); char c = alpha[0]; for (unsigned j = 1; j < k; ++j) c = x == j ? alpha[j] : c; s.push_back(c); }
    return s;
}
void nsx_main() {
    unsigned m = (unsigned)nsx_param(0, 0), n = (unsigned)nsx_param(1, 3), lo = (unsigned)nsx_param(2, 1); bool rt = nsx_param(3, 0);
    switch (m) {
    case 0: check(text(lo, n, 0), rt); break;
    case 1: check(text(lo, n, "[]{},:\"a1 "), rt); break;
    case 2: check(text(lo, n, "-+.e019"), rt); break;
    case 3: check("\"" + text(lo, n, 0) + "\"", rt); break;
    case 4: check("\"\\u" + text(lo, n, 0) + "\"", rt); break;
    case 5: { S a = "\"\\uD"; a += text(1, 1, "8b9AaBcF"); a += text(1, 1, "04f"); a += text(1, 1, "0cF"); a += "\\ud"; a += text(1, 1, "CdfEe0"); a += text(1, 1, "08f"); a += text(1, 1, "0eF"); if (lo) a = "{" + a + "\":" + a + "\"}"; else a += "\""; check(a, rt); }; break;
    case 6: check("{\"" + text(lo, n, 0) + "\":1}", rt); break;
    case 7: check("[" + text(lo, n, "[]{},:\"a1 ") + "]", rt); break;
    case 8: check("{\"b\":" + text(lo, n, "[]{},:\"a1 ") + "}", rt); break;
    case 10: { static const char* b[] = { "[1,{\"x\":[", "{\"a\":{\"b\":2}}", "\"\\ud834\"", "[tru", "" }; check(text(lo, n, "[]{},:\"a1 "), rt, b[nsx_choice(0, 4, "read before")]); break; }
    case 11: check(text(lo, n, "[]{},:\"a1 "), rt, 0, "\xEF\xBB\xBF"); break;
    case 12: { // comments between tokens of a relaxed document change nothing
        static const char* docs[] = { "[ 1 , \"a\" , true , { } ]", "{ \"a\" : { \"b\" : [ ] , \"c\" : null } , \"d\" : 23 }", "[ [ ] , [ -5 ] , \"x/*y*/\" ]", "{ \"//\" : \"//\" }" }; S d = docs[nsx_choice(0, 3, "document")]; S t = d; unsigned k = 0;
        for (unsigned c = 0; c < n; ++c) { unsigned p = (unsigned)nsx_choice(0, t.size(), "position"); if (p < t.size() && t[p] != ' ') nsx_assume(false); unsigned q = 0; bool in = false; for (; q < p; ++q) { if (t[q] == '"') in = !in; } nsx_assume(!in); S ins = nsx_choice(0, 1, "style") ? S("/*") + text(1, 1, "*/ x\"") + "*/" : S("//") + text(1, 1, "*/ x\"") + "\n"; if (c == 0) k = p; else nsx_assume(p <= k); t = t.substr(0, p) + ins + t.substr(p); }
        Ref ref(d); Val want; nsx_assert(ref.document(want), "reference"); std::istringstream in(t); json j; nsx_assert(j.read(in), "comments are accepted"); same(j.root(), want); nsx_reach("commented"); break; }
    case 13: { // lookup: the first member of the name, or none
        static const char* nm[] = { "a", "b", "ab", "" }; unsigned c = (unsigned)nsx_choice(0, n, "members"); S t = "{"; int first[4] = { -1, -1, -1, -1 }, cnt[4] = { 0, 0, 0, 0 }; for (unsigned i = 0; i < c; ++i) { unsigned x = (unsigned)nsx_choice(0, 3, "name"); if (i) t += ","; t += S("\"") + nm[x] + "\":" + (char)('1' + i); if (first[x] < 0) first[x] = i; ++cnt[x]; } t += "}";
        std::istringstream in(t); json j; nsx_assert(j.read(in), "read"); auto& o = j.root().template as<json::json_object>();
        for (unsigned x = 0; x < 4; ++x) { json::json_string key{ nm[x] }; nsx_assert(o.has(key) == (first[x] >= 0), "has"); if (cnt[x] == 1) nsx_assert(o.at(key).template as<int>() == first[x] + 1, "at"); if (first[x] < 0) { bool th = false; try { o.at(key); } catch (std::out_of_range&) { th = true; } nsx_assert(th, "an absent name throws"); } if (nm[x][0]) { bool th = false; int v = 0; try { v = j.at(key).template as<int>(); } catch (neolib::json_path_not_found&) { th = true; } nsx_assert(first[x] < 0 ? th : !th && v == first[x] + 1, "at(path)"); } }
        unsigned x = (unsigned)nsx_choice(0, 3, "new name"); json::json_string key{ nm[x] }; if (cnt[x] > 1) break; o[key] = 7; nsx_assert(o.at(key).template as<int>() == 7 && o.has(key), "operator[]"); unsigned kids = 0, sevens = 0; for (auto& k : j.root()) { ++kids; sevens += k.name().to_std_string() == nm[x] && k.template as<int>() == 7; } nsx_assert(kids == c + (first[x] < 0) && sevens == 1, "operator[] adds at most the one member"); nsx_reach("lookup"); break; }
    case 14: { // a document of generated values
        struct G { static S value(unsigned d) { switch (nsx_choice(0, d ? 7 : 5, "value")) { case 0: return "-12"; case 1: return "4294967295"; case 2: return "\"\\u001f\\\"x\""; case 3: return "true"; case 4: return "{}"; case 5: return "[]"; case 6: return "[" + value(d - 1) + "," + value(d - 1) + "]"; default: return "{\"a\\\\\":" + value(d - 1) + ",\"b\\u0001\":" + value(d - 1) + "}"; } } };
        S t = G::value(n); check(t, true); break; }
    case 9: check(text(lo, n, "truefalsn[], "), rt); break;
    }
}
