// UTF-8 / UTF-16 / UTF-32 conversions against the Unicode encoding forms.
#include <nsx.h>
#include <neolib/core/string_utf.hpp>
#include <string>
typedef char32_t cp;
static bool surr(cp c) { return c >= 0xD800 && c <= 0xDFFF; }
static unsigned enc8(cp c, uint8_t* o) {
    if (c < 0x80) { o[0] = c; return 1; }
    if (c < 0x800) { o[0] = 0xC0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
    if (c < 0x10000) { o[0] = 0xE0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; }
    o[0] = 0xF0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63); return 4;
}
static unsigned enc16(cp c, char16_t* o) { if (c < 0x10000) { o[0] = c; return 1; } c -= 0x10000; o[0] = 0xD800 + (c >> 10); o[1] = 0xDC00 + (c & 0x3FF); return 2; }
// One decoding step at p (end e): the length of a sequence of the Unicode form (encoded surrogates included, flagged), or 0.
static unsigned dec8(const uint8_t* p, const uint8_t* e, cp& c) {
    uint8_t b = p[0]; long n = e - p;
    if (b < 0x80) { c = b; return 1; }
    auto tr = [&](int i) { return i < n && p[i] >= 0x80 && p[i] <= 0xBF; };
    if (b >= 0xC2 && b <= 0xDF) { if (!tr(1)) return 0; c = (b & 31u) << 6 | (p[1] & 63u); return 2; }
    if (b >= 0xE0 && b <= 0xEF) { if (!tr(1) || (b == 0xE0 && p[1] < 0xA0) || !tr(2)) return 0; c = (b & 15u) << 12 | (p[1] & 63u) << 6 | (p[2] & 63u); return 3; }
    if (b >= 0xF0 && b <= 0xF4) { if (!tr(1) || (b == 0xF0 && p[1] < 0x90) || (b == 0xF4 && p[1] > 0x8F) || !tr(2) || !tr(3)) return 0; c = (b & 7u) << 18 | (p[1] & 63u) << 12 | (p[2] & 63u) << 6 | (p[3] & 63u); return 4; }
    return 0;
}
static cp scalar(const char* n) { cp c = (cp)nsx_range(0, 0x10FFFF, n); nsx_assume(!surr(c)); return c; }
void nsx_main() {
    unsigned mode = (unsigned)nsx_param(0, 0), n = (unsigned)nsx_param(1, 2);
    if (mode == 0) {                                    // well-formed text, in every direction
        nsx_reach("text"); unsigned k = (unsigned)nsx_choice(0, n, "n");
        uint8_t u8[16]; char16_t u16[8]; unsigned n8 = 0, n16 = 0; std::u32string s32;
        for (unsigned i = 0; i < k; ++i) { cp c = scalar("c"); s32.push_back(c); n8 += enc8(c, u8 + n8); n16 += enc16(c, u16 + n16); }
        std::string r8 = neolib::utf32_to_utf8(s32);
        bool ok = r8.size() == n8; for (unsigned i = 0; i < n8 && ok; ++i) ok &= (uint8_t)r8[i] == u8[i];
        nsx_assert(ok, "utf32_to_utf8 gives the UTF-8 encoding");
        nsx_assert(neolib::check_utf8(r8), "check_utf8 accepts well-formed UTF-8");
        std::u32string r32 = neolib::utf8_to_utf32(r8);
        ok = r32.size() == k; for (unsigned i = 0; i < k && ok; ++i) ok &= r32[i] == s32[i];
        nsx_assert(ok, "utf8_to_utf32 decodes to the same characters");
        std::u16string r16 = neolib::utf8_to_utf16(r8);
        ok = r16.size() == n16; for (unsigned i = 0; i < n16 && ok; ++i) ok &= r16[i] == u16[i];
        nsx_assert(ok, "utf8_to_utf16 gives the UTF-16 encoding");
        neolib::utf16_to_utf8_character_map map;
        std::string b8 = neolib::utf16_to_utf8(r16, map);
        ok = b8.size() == n8; for (unsigned i = 0; i < n8 && ok; ++i) ok &= (uint8_t)b8[i] == u8[i];
        nsx_assert(ok, "utf16_to_utf8 gives the UTF-8 encoding");
        // the character map: every UTF-8 byte is mapped to (the start of) the UTF-16 unit it came from
        unsigned p8 = 0, p16 = 0; nsx_assert(map.size() == n8, "character map has one entry per byte");
        for (unsigned i = 0; i < k; ++i) { cp c = s32[i]; uint8_t t[4]; unsigned l = enc8(c, t); 
            for (unsigned j = 0; j < l; ++j) { auto it = map.find(p8 + j); nsx_assert(it != map.end(), "character map covers each byte"); nsx_assert(it->second == p16 + (l == 4 && j == 3 ? 1 : 0), "character map entry"); }
            p8 += l; p16 += l == 4 ? 2 : 1; }
    } else if (mode == 1) {                             // arbitrary bytes
        nsx_reach("bytes"); unsigned k = (unsigned)nsx_choice(0, n, "n"); uint8_t b[12]; nsx_bytes(b, k, "b");
        std::string s((char*)b, k);
        cp want[12]; unsigned pos[12]; unsigned nw = 0; bool ill = false;
        for (unsigned i = 0; i < k;) { cp c; unsigned l = dec8(b + i, b + k, c); pos[nw] = i; if (!l) { want[nw++] = 0xFFFD; ill = true; ++i; nsx_reach("ill-formed"); } else { want[nw++] = c; if (surr(c)) ill = true; i += l; } }
        std::u32string r; unsigned calls = 0; bool cbok = true;
        r = neolib::utf8_to_utf32(s, [&](std::size_t f, std::size_t t) { cbok &= calls < nw && f == pos[calls] && t == calls; ++calls; });
        bool ok = r.size() == nw; for (unsigned i = 0; i < nw && ok; ++i) ok &= r[i] == want[i];
        nsx_assert(ok, "utf8_to_utf32: characters, U+FFFD for each byte that starts no sequence"); nsx_assert(cbok && calls == nw, "conversion callback reports each character's position");
        std::u16string w; for (unsigned i = 0; i < nw; ++i) { char16_t t[2]; unsigned l = enc16(want[i], t); w.append(t, l); }
        nsx_assert(neolib::utf8_to_utf16(s) == w, "utf8_to_utf16 agrees");
        nsx_assert(neolib::check_utf8(s) == !ill, "check_utf8 is true exactly for well-formed UTF-8");
    } else if (mode == 2) {                             // arbitrary UTF-16, lone surrogates included
        nsx_reach("units"); unsigned k = (unsigned)nsx_choice(0, n, "n"); std::u16string s; for (unsigned i = 0; i < k; ++i) s.push_back((char16_t)nsx_u16("u"));
        std::string r = neolib::utf16_to_utf8(s);
        // reference
        uint8_t o[24]; unsigned m = 0; bool lone = false;
        for (unsigned i = 0; i < k;) { cp c = s[i++]; if (c >= 0xD800 && c <= 0xDBFF && i < k && s[i] >= 0xDC00 && s[i] <= 0xDFFF) { c = 0x10000 + ((c - 0xD800) << 10) + (s[i++] - 0xDC00); } else if (surr(c)) { lone = true; nsx_reach("lone"); } m += enc8(c, o + m); }
        bool ok = r.size() == m; for (unsigned i = 0; i < m && ok; ++i) ok &= (uint8_t)r[i] == o[i];
        nsx_assert(ok, "utf16_to_utf8 pairs surrogates and keeps everything else");
        nsx_assert(neolib::utf8_to_utf16(r) == s, "UTF-16 text survives the round trip");
        nsx_assert(neolib::check_utf8(r) == !lone, "check_utf8 accepts it unless a surrogate is unpaired");
    } else {                                            // any 32-bit value
        cp c = (cp)nsx_u32("c"); std::string s; std::size_t l = neolib::append_utf8(s, c);
        uint8_t o[4]; unsigned m; if (c > 0x10FFFF) { o[0] = '?'; m = 1; nsx_reach("invalid"); } else m = enc8(c, o);
        bool ok = s.size() == m && l == m; for (unsigned i = 0; i < m && ok; ++i) ok &= (uint8_t)s[i] == o[i];
        nsx_assert(ok, "append_utf8 encodes the character, or '?' when there is none");
        uint8_t t = nsx_u8("t"); nsx_assert(neolib::is_utf8_trailing((char)t) == (t >= 0x80 && t <= 0xBF), "is_utf8_trailing");
    }
}
