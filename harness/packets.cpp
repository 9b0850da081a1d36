// packets: what arrives does not depend on how it was split
#include "seq.h"
#include <string>
#include <vector>
#include <cstring>
#include <neolib/io/string_packet.hpp>
#include <neolib/io/binary_packet.hpp>
using namespace neolib;
static void lines(unsigned n, unsigned cuts) {
    long heap = nsx_live_heap();
    { char b[16]; n = nsx_choice(0, n, "n"); for (unsigned i = 0; i < n; ++i) b[i] = (char)nsx_u8("b");
    // the lines by definition: maximal runs of bytes other than CR and LF; the last is complete only if a delimiter follows
    unsigned from[16], to[16], k = 0; bool open = false; for (unsigned i = 0; i < n; ++i) { bool d = b[i] == '\r' || b[i] == '\n'; if (!d && !open) { from[k] = i; open = true; } if (d && open) { to[k++] = i; open = false; } }
    string_packet p; i_packet& ip = p; unsigned seen = 0, at = 0;
    for (unsigned c = 0; c <= cuts; ++c) { unsigned e = c == cuts ? n : nsx_choice(at, n, "cut"); const char* f = b + at; const char* l = b + e; unsigned guard = 0;
        for (;;) { const char* was = f; bool done = ip.take_some(f, l); nsx_assert(f >= was && f <= l, "takes from the front"); if (!done) break; nsx_assert(f != was, "progress"); nsx_assert(++guard <= n, "ends");
            if (!ip.empty()) { nsx_assert(seen < k && ip.length() == to[seen] - from[seen] && std::memcmp(ip.data(), b + from[seen], ip.length()) == 0, "the next line, whole"); ++seen; i_packet::clone_pointer q = ip.clone(); string_packet r("x"); r.copy_from(ip); string_packet s(p), t; t = p; nsx_assert(q->length() == ip.length() && std::memcmp(q->data(), ip.data(), ip.length()) == 0 && r.contents() == p.contents() && s.contents() == p.contents() && t.contents() == p.contents() && (std::size_t)(ip.end() - ip.begin()) == ip.length(), "copies"); ip.clear(); nsx_assert(ip.empty() && ip.begin() == ip.end() && q->length() != 0, "clear"); } }
        nsx_assert(f == l, "everything is taken"); at = e; }
    nsx_assert(seen == k, "every line arrived"); nsx_assert(ip.length() == (open ? n - from[k] : 0) && (!open || std::memcmp(ip.data(), b + from[k], n - from[k]) == 0), "what is left is the beginning of the next line"); if (ip.empty()) { bool th = false; try { (void)ip.data(); } catch (const i_packet::packet_empty&) { th = true; } nsx_assert(th, "data of nothing throws"); }
    if (k > 1) nsx_reach("lines"); nsx_reach("stream"); }
    nsx_assert(nsx_live_heap() == heap, "no leak");
}
static void binary(unsigned n, unsigned cuts) {
    char b[16]; n = nsx_choice(0, n, "n"); nsx_bytes(b, sizeof b, "b"); binary_packet p; i_packet& ip = p; unsigned at = 0; bool keep = nsx_choice(0, 1, "keep"); unsigned from = 0;
    for (unsigned c = 0; c <= cuts; ++c) { unsigned e = c == cuts ? n : nsx_choice(at, n, "cut"); const char* f = b + at; bool got = ip.take_some(f, b + e); nsx_assert(got == (e != at) && f == b + e, "takes everything there is"); nsx_assert(ip.length() == e - from && ip.empty() == (e == from) && (e == from || std::memcmp(ip.data(), b + from, e - from) == 0), "bytes in order"); binary_packet q(b, e); i_packet::clone_pointer r = ip.clone(); q.copy_from(ip); nsx_assert(q.contents() == p.contents() && r->length() == ip.length(), "copies"); at = e; if (!keep) { ip.clear(); from = e; nsx_assert(ip.empty(), "clear"); } }
    if (ip.empty()) { bool th = false; try { (void)ip.data(); } catch (const i_packet::packet_empty&) { th = true; } nsx_assert(th, "data of nothing throws"); } nsx_reach("binary");
}
extern "C" void nsx_main() { switch (nsx_param(0, 0)) { case 0: lines(nsx_param(1, 4), nsx_param(2, 1)); break; case 1: binary(nsx_param(1, 4), nsx_param(2, 2)); break; } }
