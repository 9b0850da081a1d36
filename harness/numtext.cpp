// Decimal and hexadecimal text to integers.
#include <nsx.h>
#include <neolib/core/string_numeric.hpp>
#include <string>
typedef std::string S; typedef std::string_view V;
void nsx_main() {
    unsigned mode = (unsigned)nsx_param(0, 0), lo = (unsigned)nsx_param(1, 1), hi = (unsigned)nsx_param(2, 4);
    unsigned n = lo == hi ? lo : (unsigned)nsx_choice(lo, hi, "digits"); __int128 v;
    // numbers near the limits of the integer types: all digits but the last n fixed
    static const char* const lim[] = { "", "21474836", "42949672", "9223372036854775", "18446744073709551" };
    const char* pre = lim[nsx_param(3, 0) ? nsx_choice(1, 4, "near") : 0];
    auto digits = [&](unsigned n, unsigned base, __int128& v) { S s = pre; v = 0; unsigned long long h = 0; for (char c : s) h = h * 10 + (c - '0'); unsigned long long lo = 0, p = 1; for (unsigned i = 0; i < n; ++i) { unsigned d = (unsigned)nsx_range(0, base - 1, "digit"); lo = lo * base + d; p *= base; s.push_back((char)(d < 10 ? '0' + d : (nsx_param(4, 0) ? 'A' : 'a') + d - 10)); } v = (__int128)((unsigned __int128)h * p + lo); return s; };
    if (mode == 0) {                     // decimal integer, followed by anything that is not a digit
        unsigned sg = (unsigned)nsx_choice(0, 2, "sign"); S s = sg == 1 ? "-" : sg == 2 ? "+" : ""; S d = digits(n, 10, v); s += d; if (sg == 1) v = -v;
        if (nsx_choice(0, 1, "tail")) { char c = (char)nsx_u8("tail"); nsx_assume(!(c >= '0' && c <= '9')); s.push_back(c); nsx_reach("tail"); }
        V w{s};
        if (v >= INT32_MIN && v <= INT32_MAX) { nsx_assert(neolib::string_to_int32(w) == v, "string_to_int32 (view)"); nsx_assert(neolib::string_to_int32(s) == v, "string_to_int32"); nsx_reach("int32"); }
        else nsx_assert(neolib::string_to_int32(s) == neolib::string_to_int32(w), "string and view agree on numbers out of range");
        if (v >= INT64_MIN && v <= INT64_MAX) { nsx_assert(neolib::string_to_int64(w) == v, "string_to_int64 (view)"); nsx_assert(neolib::string_to_int64(s) == v, "string_to_int64"); nsx_reach("int64"); }
        if (sg == 0) {
            if (v <= UINT32_MAX) { nsx_assert(neolib::string_to_uint32(w) == v, "string_to_uint32 (view)"); nsx_assert(neolib::string_to_uint32(s) == v, "string_to_uint32"); nsx_reach("uint32"); }
            if (v <= UINT64_MAX) { nsx_assert(neolib::string_to_uint64(w) == v, "string_to_uint64 (view)"); nsx_assert(neolib::string_to_uint64(s) == v, "string_to_uint64"); nsx_reach("uint64"); }
        }
    } else if (mode == 1) {              // hexadecimal
        S s = digits(n, 16, v);
        if (v <= INT32_MAX) nsx_assert(neolib::string_to_int32(s, 16) == v, "string_to_int32, base 16");
        if (v <= UINT32_MAX) nsx_assert(neolib::string_to_uint32(s, 16) == v, "string_to_uint32, base 16");
        if (v <= INT64_MAX) nsx_assert(neolib::string_to_int64(s, 16) == v, "string_to_int64, base 16");
        nsx_assert(neolib::string_to_uint64(s, 16) == v, "string_to_uint64, base 16"); nsx_reach("hex");
    } else if (mode == 2) {              // string_to_number on integers
        unsigned sg = (unsigned)nsx_choice(0, 1, "sign"); S s = sg ? "-" : ""; s += digits(n, 10, v); if (sg) v = -v;
        nsx_assume(v <= UINT64_MAX && v >= INT64_MIN);
        bool ok = std::visit([&](auto const& x) -> bool { using T = std::decay_t<decltype(x)>; if constexpr (std::is_integral_v<T>) return x == v; else return false; }, neolib::string_to_number(V{s}));
        nsx_assert(ok, "string_to_number gives an integer of that value"); nsx_reach("number");
    } else {                             // string_to_number / string_to_double on decimals with a fraction or an exponent
        unsigned kind = (unsigned)nsx_choice(0, 3, "kind"); S s = nsx_choice(0, 1, "sign") ? "-" : ""; bool neg = !s.empty(); unsigned d = (unsigned)nsx_range(0, 9, "d"); double want; s.push_back('0' + d);
        switch (kind) { case 0: s += ".5"; want = d + 0.5; break; case 1: s += "e1"; want = d * 10.0; break; case 2: s += ".25E2"; want = d * 100.0 + 25; break; default: s += "."; want = d; }
        if (neg) want = -want;
        nsx_assert(neolib::string_to_double(s) == want, "string_to_double");
        bool ok = std::visit([&](auto const& x) -> bool { using T = std::decay_t<decltype(x)>; if constexpr (std::is_arithmetic_v<T>) return (double)x == want; else return false; }, neolib::string_to_number(V{s}));
        nsx_assert(ok, "string_to_number keeps the fraction and exponent"); nsx_reach("real");
    }
}
