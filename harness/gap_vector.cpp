// gap_vector behaves as a std::vector-like sequence under every bounded operation history.
#include <nsx.h>
#ifndef GAP
#define GAP 4
#endif
#ifndef NEAR
#define NEAR 1
#endif
#define BIG (GAP + 1)
#include "seqops.h"
#include <neolib/core/gap_vector.hpp>
#ifdef TRIVIAL
typedef uint8_t E;
#else
typedef Tracked E;
#endif
struct Tr : SeqTraits { static constexpr bool at = true; };
void nsx_main() { SeqDriver<neolib::gap_vector<E, GAP, NEAR>, E, Model<uint8_t, 64>, Tr>::main(); }
