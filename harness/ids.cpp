// version numbers, UUIDs and hashes
#include "seq.h"
#include <cstring>
#include <sstream>
#include <neolib/app/version.hpp>
#include <neolib/core/uuid.hpp>
#include <neolib/core/fast_hash.hpp>
#include <neolib/io/openssl.hpp>
using namespace neolib;
// generate_uuid's source of random bytes: a stand-in whose bytes and success are symbolic
static uint8_t g_key[16]; static bool g_ok; static unsigned g_asked, g_size;
namespace neolib { openssl::openssl() {} openssl::~openssl() {} openssl& openssl::instance() { static openssl s; return s; } bool openssl::generate_key(uint8_t* b, std::size_t n) { ++g_asked; g_size = (unsigned)n; if (!g_ok) return false; for (std::size_t i = 0; i < n && i < 16; ++i) b[i] = g_key[i]; return true; } }
static int cmp4(const uint32_t* a, const uint32_t* b) { for (int i = 0; i < 4; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
static void vcompare() {
    uint32_t n[2][4]; for (auto& x : n) for (auto& y : x) y = nsx_u32("n");
    version a(n[0][0], n[0][1], n[0][2], n[0][3], "x"), b(n[1][0], n[1][1], n[1][2], n[1][3], "y"); int c = cmp4(n[0], n[1]);
    nsx_assert((a < b) == (c < 0), "a < b: the first number that differs decides"); nsx_assert((a > b) == (c > 0), "a > b"); nsx_assert((a == b) == (c == 0), "a == b");
    const i_version& ia = a; version k(ia), l(a); nsx_assert(k == a && l == a && ia.version_major() == n[0][0] && ia.version_minor() == n[0][1] && ia.version_maintenance() == n[0][2] && ia.version_build() == n[0][3] && k.version_name().to_std_string() == "x" && l.version_name().to_std_string() == "x", "copies and fields"); nsx_reach("compare");
}
static void vtext() {
    uint32_t n[4]; unsigned w = nsx_choice(0, 3, "which"); for (unsigned i = 0; i < 4; ++i) { n[i] = i == w ? nsx_u32("n") : i * 7; if (i == w) nsx_assume(n[i] < nsx_param(2, 100000)); }
    std::string name; unsigned len = nsx_choice(0, nsx_param(1, 2), "length"); for (unsigned i = 0; i < len; ++i) { char c = (char)nsx_u8("c"); nsx_assume(c > ' ' && c < 127 && c != '.'); name += c; }
    version v(n[0], n[1], n[2], n[3], name); std::ostringstream os; os << v; version p(os.str());
    nsx_assert(p == v && p.version_major() == n[0] && p.version_minor() == n[1] && p.version_maintenance() == n[2] && p.version_build() == n[3], "numbers read back"); nsx_assert(p.version_name().to_std_string() == name, "the name is read back"); if (len) nsx_reach("named");
    // fewer numbers: the rest are zero
    std::string t = std::to_string(n[0]); version p1(t); nsx_assert(p1.version_major() == n[0] && p1.version_minor() == 0 && p1.version_maintenance() == 0 && p1.version_build() == 0 && p1.version_name().empty(), "one number"); t += "." + std::to_string(n[1]); version p2(t); nsx_assert(p2.version_major() == n[0] && p2.version_minor() == n[1] && p2.version_maintenance() == 0 && p2.version_build() == 0, "two numbers"); t += "." + std::to_string(n[2]); version p3(t); nsx_assert(p3.version_major() == n[0] && p3.version_minor() == n[1] && p3.version_maintenance() == n[2] && p3.version_build() == 0, "three numbers"); nsx_reach("text");
}
static uuid any_uuid(unsigned mask) { uuid u{ 0x0123ABCD, 0x0f0e, 0x4d0c, 0x80b1, { 0, 9, 8, 0xa7, 6, 5 } }; if (mask & 1) u.part1 = nsx_u32("p1"); if (mask & 2) u.part2 = nsx_u16("p2"); if (mask & 4) u.part3 = nsx_u16("p3"); if (mask & 8) u.part4 = nsx_u16("p4"); for (int i = 0; i < 6; ++i) if (mask & (16 << i)) u.part5[i] = nsx_u8("p5"); return u; }
static char hexd(unsigned v) { return (char)(v < 10 ? '0' + v : 'A' + v - 10); }
static void utext(unsigned mask) {
    uuid u = any_uuid(mask); std::string s = uuid_to_string(u); nsx_assert(s.size() == 36, "36 characters"); uint8_t b[16]; for (int i = 0; i < 4; ++i) b[i] = (uint8_t)(u.part1 >> (24 - 8 * i)); b[4] = u.part2 >> 8; b[5] = (uint8_t)u.part2; b[6] = u.part3 >> 8; b[7] = (uint8_t)u.part3; b[8] = u.part4 >> 8; b[9] = (uint8_t)u.part4; for (int i = 0; i < 6; ++i) b[10 + i] = u.part5[i];
    unsigned k = 0; for (unsigned i = 0; i < 36; ++i) if (i == 8 || i == 13 || i == 18 || i == 23) nsx_assert(s[i] == '-', "hyphens"); else { nsx_assert(s[i] == hexd((b[k / 2] >> (k % 2 ? 0 : 4)) & 15), "digits: most significant first"); ++k; }
    uuid r = make_uuid(s); nsx_assert(r == u && r.part1 == u.part1 && r.part2 == u.part2 && r.part3 == u.part3 && r.part4 == u.part4 && r.part5 == u.part5, "make_uuid reads back what uuid_to_string wrote");
    uuid r2{}; std::istringstream is(s); is >> r2; nsx_assert(r2 == u, "extraction reads back what was inserted");
    std::string lower; for (char c : s) lower += c >= 'A' && c <= 'F' ? (char)(c + 32) : c; nsx_assert(make_uuid(lower) == u, "lower case is read too"); nsx_reach("text");
}
static void ustream() {
    uuid u = any_uuid(2); bool hex = nsx_choice(0, 1, "hex"), up = nsx_choice(0, 1, "upper"); std::ostringstream os; if (hex) os << std::hex; if (up) os << std::uppercase; os.fill('*'); auto f = os.flags(); os << u; nsx_assert(os.flags() == f && os.fill() == '*', "the stream's format settings are left as they were"); nsx_assert(os.str() == uuid_to_string(u), "text does not depend on the stream's settings"); nsx_reach("stream");
}
static void ucompare() {
    uuid a = any_uuid(1023), b = any_uuid(1023); uint64_t ka[2], kb[2]; auto key = [](const uuid& u, uint64_t* k) { k[0] = (uint64_t)u.part1 << 32 | (uint64_t)u.part2 << 16 | u.part3; k[1] = (uint64_t)u.part4 << 48; for (int i = 0; i < 6; ++i) k[1] |= (uint64_t)u.part5[i] << (40 - 8 * i); }; key(a, ka); key(b, kb);
    bool eq = ka[0] == kb[0] && ka[1] == kb[1], lt = ka[0] < kb[0] || (ka[0] == kb[0] && ka[1] < kb[1]); nsx_assert((a == b) == eq && (a != b) == !eq, "equality: all 128 bits"); nsx_assert((a < b) == lt && (b > a) == lt && (a <= b) == (lt || eq) && (a >= b) == !lt, "order: as the printed texts"); if (eq) { nsx_assert(std::hash<uuid>()(a) == std::hash<uuid>()(b) && quick_uuid_hash()(a) == quick_uuid_hash()(b), "equal values hash alike"); } nsx_reach("order");
}
static void ugenerate() {
    for (auto& k : g_key) k = nsx_u8("k"); g_ok = nsx_choice(0, 1, "ok"); bool th = false; uuid u{}; try { u = generate_uuid(); } catch (const unable_to_generate_uuid&) { th = true; } nsx_assert(th == !g_ok && g_asked == 1 && g_size == 16, "throws exactly when random bytes cannot be had"); if (th) { nsx_reach("fails"); return; }
    nsx_assert((u.part3 >> 12) == 4 && (u.part4 >> 14) == 2, "version 4, RFC 4122 variant"); uint32_t p1; uint16_t p2, p3, p4; std::memcpy(&p1, g_key, 4); std::memcpy(&p2, g_key + 4, 2); std::memcpy(&p3, g_key + 6, 2); std::memcpy(&p4, g_key + 8, 2); nsx_assert(u.part1 == p1 && u.part2 == p2 && (u.part3 & 0xfff) == (p3 & 0xfff) && (u.part4 & 0x3fff) == (p4 & 0x3fff) && std::memcmp(u.part5.data(), g_key + 10, 6) == 0, "the other 122 bits are the random ones"); nsx_reach("generate");
}
static void hashes(unsigned maxlen) {
    unsigned n = nsx_choice(0, maxlen, "length"), off = nsx_choice(0, 1, "alignment"); uint8_t buf[32]; nsx_bytes(buf, sizeof buf, "b"); uint32_t h = 2166136261u; uint64_t h64 = 14695981039346656037ull; for (unsigned i = 0; i < n; ++i) { h = (h ^ buf[off + i]) * 16777619u; h64 = (h64 ^ buf[off + i]) * 1099511628211ull; }
    nsx_assert(fast_hash(buf + off, n) == h && fast_hash<uint32_t>(buf + off, n) == h, "FNV-1a, 32 bits"); nsx_assert(fast_hash<uint64_t>(buf + off, n) == h64, "FNV-1a, 64 bits"); nsx_reach("hash");
}
extern "C" void nsx_main() {
    switch (nsx_param(0, 0)) { case 0: vcompare(); break; case 1: vtext(); break; case 2: utext(nsx_param(1, 1)); break; case 3: ustream(); break; case 4: ucompare(); break; case 5: ugenerate(); break; case 6: hashes(nsx_param(1, 8)); break; }
}
