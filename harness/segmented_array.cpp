// segmented_array behaves as a sequence under every bounded operation history.
#include <nsx.h>
#ifndef SEG
#define SEG 3
#endif
#define BIG (2 * SEG)
#include "seqops.h"
#include <neolib/core/segmented_array.hpp>
#ifdef TRIVIAL
typedef uint8_t E;
#else
typedef Tracked E;
#endif
struct Tr : SeqTraits {};
void nsx_main() { SeqDriver<neolib::segmented_array<E, SEG>, E, Model<uint8_t, 64>, Tr>::main(); }
