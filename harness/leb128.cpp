// LEB128: canonical minimal encoding, decodes (by an independent reference decoder) to the original value.
#include <nsx.h>
#include <neolib/core/leb128.hpp>

struct Enc { uint8_t b[10]; unsigned n; };
template <typename V> static Enc flat(const V& v) {
    Enc e{}; 
    std::visit([&](auto const& a) { e.n = (unsigned)a.size(); for (unsigned i = 0; i < a.size(); ++i) e.b[i] = a[i]; }, v);
    return e;
}
static void contBits(const Enc& e) {
    for (unsigned i = 0; i + 1 < e.n; ++i) nsx_assert(e.b[i] & 0x80, "every byte but the last has the continuation bit");
    nsx_assert(!(e.b[e.n - 1] & 0x80), "the last byte has no continuation bit");
}
static void unsignedEnc(uint64_t v, const Enc& e, unsigned maxLen) {
    nsx_assert(e.n >= 1 && e.n <= maxLen, "length in range");
    contBits(e);
    unsigned __int128 d = 0;
    for (unsigned i = 0; i < e.n; ++i) d |= (unsigned __int128)(e.b[i] & 0x7f) << (7 * i);
    nsx_assert((uint64_t)d == v && (uint64_t)(d >> 64) == 0, "decodes to the encoded value");
    nsx_assert(e.n == 1 || e.b[e.n - 1] != 0, "minimal length");
}
void nsx_main() {
    switch (nsx_choice(0, 2, "which")) {
    case 0: { uint64_t v = nsx_u64("v"); Enc e = flat(neolib::leb128::ULEB128(v)); unsignedEnc(v, e, 10); nsx_reach("uleb"); if (e.n == 10) nsx_reach("uleb10"); nsx_observe(e.n); nsx_observe(e.b[0]); break; }
    case 1: { uint32_t v = nsx_u32("v"); Enc e = flat(neolib::leb128::LEB128(v)); unsignedEnc(v, e, 5); nsx_reach("leb"); if (e.n == 5) nsx_reach("leb5"); nsx_observe(e.n); break; }
    case 2: {
        uint64_t u = nsx_u64("v"); int64_t v = (int64_t)u;
        Enc e = flat(neolib::leb128::SLEB128(v));
        nsx_assert(e.n >= 1 && e.n <= 10, "length in range");
        contBits(e);
        unsigned __int128 d = 0; unsigned sh = 0;
        for (unsigned i = 0; i < e.n; ++i) { d |= (unsigned __int128)(e.b[i] & 0x7f) << sh; sh += 7; }
        if (e.b[e.n - 1] & 0x40) d |= ~(unsigned __int128)0 << sh;
        nsx_assert((uint64_t)d == u && (uint64_t)(d >> 64) == (v < 0 ? ~0ull : 0), "sign-extended decoding gives the encoded value");
        if (e.n > 1) nsx_assert(!((e.b[e.n - 1] & 0x7f) == 0 && !(e.b[e.n - 2] & 0x40)) && !((e.b[e.n - 1] & 0x7f) == 0x7f && (e.b[e.n - 2] & 0x40)), "minimal length");
        nsx_reach("sleb"); if (e.n == 10) nsx_reach("sleb10"); if (v < -64) nsx_reach("sleb-neg"); nsx_observe(e.n); break;
    }
    }
}
