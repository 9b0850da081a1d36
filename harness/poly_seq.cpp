// The polymorphic sequence containers (neolib::vector / list / deque) and the small-buffer vectors behave as sequences.
#include <nsx.h>
#define BIG 4
#include "seqops.h"
#if KIND == 0
#include <neolib/core/vector.hpp>
#elif KIND == 1
#include <neolib/core/list.hpp>
#elif KIND == 2
#include <neolib/core/deque.hpp>
#else
#include <neolib/core/static_vector.hpp>
#include <neolib/core/vecarray.hpp>
#endif
typedef Tracked E;
#if KIND == 0
typedef neolib::vector<E> C;
struct Tr : SeqTraits { static constexpr bool at = true; };
#elif KIND == 1
typedef neolib::list<E> C;
struct Tr : SeqTraits { static constexpr bool random = false, alias = false; };
#elif KIND == 2
typedef neolib::deque<E> C;
struct Tr : SeqTraits { static constexpr bool random = false, emplace = false; };
#elif KIND == 3
typedef neolib::growable_static_vector<E, 3, 100> C;
struct Tr : SeqTraits { static constexpr bool at = true; };
#else
typedef neolib::vecarray<E, 6> C;
struct Tr : SeqTraits { static constexpr bool at = true; static constexpr unsigned cap = 6; static constexpr bool alias = false; };
#endif
void nsx_main() { SeqDriver<C, E, Model<uint8_t, 64>, Tr>::main(); }
