// Stand-in for libqi's clock header: durations are signed 64-bit nanoseconds.
#ifndef VERIF_STUBS_QI_CLOCK_HPP
#define VERIF_STUBS_QI_CLOCK_HPP
#include <boost/chrono.hpp>
#include <cassert>
#include <cstdint>
namespace qi {
typedef boost::chrono::duration<int64_t, boost::nano> Duration;
typedef Duration NanoSeconds;
typedef boost::chrono::duration<int64_t> Seconds;
}
#endif
