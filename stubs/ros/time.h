// Stand-in for roscpp's time header: two unsigned 32-bit counters.
#ifndef VERIF_STUBS_ROS_TIME_H
#define VERIF_STUBS_ROS_TIME_H
#include <cstdint>
#include <stdexcept>
namespace ros {
class Time {
 public:
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ull + (uint64_t)nsec; }
  Time &fromNSec(uint64_t t) {
    uint64_t s = t / 1000000000ull, n = t % 1000000000ull;
    if (s > 0xffffffffull) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = (uint32_t)s;
    nsec = (uint32_t)n;
    return *this;
  }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool operator==(const Time &o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time &o) const { return !(*this == o); }
  bool operator<(const Time &o) const { return sec < o.sec || (sec == o.sec && nsec < o.nsec); }
  bool operator>(const Time &o) const { return o < *this; }
  bool operator<=(const Time &o) const { return !(o < *this); }
  bool operator>=(const Time &o) const { return !(*this < o); }
};
const Time TIME_MIN(0, 1);
const Time TIME_MAX(0xffffffffu, 999999999u);
}
#endif
