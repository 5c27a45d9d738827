// Simulated output device behind a std::ostream: a stream buffer with an
// optional user-space buffer in front of a device that fails on request.
#ifndef VERIF_SIM_DEVICE_H
#define VERIF_SIM_DEVICE_H
#include <ostream>
#include <streambuf>
#include <string>
#include <vector>
#include "sim/core.h"

namespace sim {
class OutDevice : public std::streambuf {
 public:
  enum Kind { FULL, THROW, ONCE, SHORT_ONCE };
  // room: bytes the device takes before it fails (-1 never).
  // FULL: refuses from then on.  THROW: raises from then on.  ONCE: refuses a
  // single transfer and then works again.  SHORT_ONCE: one transfer is cut short.
  OutDevice(long room, int kind, size_t buffer, bool sync_fails)
      : room_(room), kind_(kind), sync_fails_(sync_fails), buf_(buffer) {
    if (!buf_.empty()) setp(buf_.data(), buf_.data() + buf_.size());
  }
  const std::string &stored() const { return got_; }
  size_t pending() const { return (size_t)(pptr() - pbase()); }
  bool fired() const { return fired_; }
  bool sync_fired() const { return sync_fired_; }
  void repair() { room_ = -1, sync_fails_ = false; }
  size_t transfers = 0;

 protected:
  int_type overflow(int_type ch) override {
    HarnessScope h;
    if (!drain()) return traits_type::eof();
    if (traits_type::eq_int_type(ch, traits_type::eof())) return traits_type::not_eof(ch);
    char x = traits_type::to_char_type(ch);
    if (!buf_.empty()) {
      *pptr() = x;
      pbump(1);
      return ch;
    }
    bool ok = put(&x, 1) == 1;
    raise();
    return ok ? ch : traits_type::eof();
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    HarnessScope h;
    if (buf_.empty()) {
      std::streamsize k = put(s, n);
      raise();
      return k;
    }
    std::streamsize i = 0;
    while (i < n) {
      if (pptr() == epptr() && !drain()) return i;
      std::streamsize k = std::min<std::streamsize>(n - i, epptr() - pptr());
      std::memcpy(pptr(), s + i, (size_t)k);
      pbump((int)k);
      i += k;
    }
    return i;
  }
  int sync() override {
    HarnessScope h;
    if (!drain()) return -1;
    if (sync_fails_) {
      fired_ = sync_fired_ = true;
      return -1;
    }
    return 0;
  }

 private:
  void raise() {
    if (!raise_) return;
    raise_ = false;
    throw InjectedError();
  }
  bool drain() {
    size_t n = pending();
    if (!n) return true;
    size_t k = (size_t)put(pbase(), (std::streamsize)n);
    std::string left(pbase() + k, n - k);
    setp(buf_.data(), buf_.data() + buf_.size());
    std::memcpy(buf_.data(), left.data(), left.size());
    pbump((int)left.size());
    raise();
    return left.empty();
  }
  std::streamsize put(const char *s, std::streamsize n) {
    ++transfers;
    if (room_ < 0 || (kind_ >= ONCE && fired_) || (long)got_.size() + (long)n <= room_) {
      got_.append(s, (size_t)n);
      return n;
    }
    fired_ = true;
    std::streamsize k = kind_ == ONCE ? 0 : std::max<std::streamsize>(0, room_ - (long)got_.size());
    got_.append(s, (size_t)k);
    raise_ = kind_ == THROW;
    return k;
  }
  std::string got_;
  long room_;
  int kind_;
  bool sync_fails_, fired_ = false, sync_fired_ = false, raise_ = false;
  std::vector<char> buf_;
};
}  // namespace sim
#endif
