// Boost here predates the constant that neolib's mutex.hpp uses to align its mutexes; nothing else depends on it.
#pragma once
#include <cstddef>
namespace boost::lockfree::detail { constexpr std::size_t cacheline_bytes = 64; }
