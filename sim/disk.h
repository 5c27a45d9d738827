// Simulated storage: files in a directory behind a write-back cache.  Data and
// directory updates become durable when synced; a crash keeps an arbitrary part
// of the others (lost, torn, or replaced by zeros, as after a block allocation
// whose data never reached the platter).
#ifndef VERIF_SIM_DISK_H
#define VERIF_SIM_DISK_H
#include <istream>
#include <map>
#include <memory>
#include <streambuf>
#include <string>
#include <vector>
#include "sim/core.h"

namespace sim {
struct Inode {
  std::string durable;  // content known to be on the platter
  std::string cached;   // content processes see
  struct Wr {
    size_t off;
    std::string data;
  };
  std::vector<Wr> dirty;  // writes since the last sync
  bool truncated = false; // cached content no longer extends durable
};
typedef std::shared_ptr<Inode> File;

class Disk {
 public:
  std::map<std::string, File> names;          // what processes see
  std::map<std::string, File> durable_names;  // what is on the platter
  long capacity = -1;
  size_t writes = 0, syncs = 0;

  File create(const std::string &n) {  // O_CREAT|O_TRUNC
    File f = names.count(n) ? names[n] : File(new Inode);
    f->cached.clear();
    f->dirty.clear();
    f->truncated = true;
    names[n] = f;
    return f;
  }
  bool append(const File &f, const char *s, size_t n, size_t &done) {
    ++writes;
    done = n;
    if (capacity >= 0 && (long)(f->cached.size() + n) > capacity) done = capacity > (long)f->cached.size() ? (size_t)capacity - f->cached.size() : 0;
    if (done) f->dirty.push_back({f->cached.size(), std::string(s, done)});
    f->cached.append(s, done);
    return done == n;
  }
  void fsync(const File &f) {
    ++syncs;
    f->durable = f->cached;
    f->dirty.clear();
    f->truncated = false;
    // syncing a file makes its name durable too, as common file systems do
    for (auto &x : names)
      if (x.second == f) durable_names[x.first] = f;
  }
  void rename(const std::string &a, const std::string &b) {
    names[b] = names[a];
    names.erase(a);
  }
  void sync_dir() { durable_names = names; }
  // Power loss.  seed decides what survives; returns how many bytes were torn or lost.
  size_t crash(u64 seed, bool &zeros) {
    Rng r(seed);
    size_t lost = 0;
    zeros = false;
    std::map<std::string, File> n;
    if (r.chance(0.5)) n = durable_names;
    else n = names;
    // each file once, whatever its names
    std::map<Inode *, bool> done;
    for (auto &x : n) {
      Inode &f = *x.second;
      if (done[&f]) continue;
      done[&f] = true;
      if (f.dirty.empty() && !f.truncated) {
        f.cached = f.durable;
        continue;
      }
      if (f.truncated && r.chance(f.dirty.empty() ? 0.5 : 0.15)) {
        for (auto &w : f.dirty) lost += w.data.size();
        f.cached = f.durable;  // even the truncation was lost
      } else {
        std::string now = f.truncated ? std::string() : f.durable;
        const int mode = r.range(0, 3);  // nothing, a prefix, each write on its own, all
        const size_t upto = r.below(f.dirty.size() + 1);
        for (size_t i = 0; i < f.dirty.size(); ++i) {
          Inode::Wr w = f.dirty[i];
          bool keep = mode == 3 || (mode == 1 && i < upto) || (mode == 2 && r.chance(0.7));
          size_t k = w.data.size();
          if (!keep) k = 0;
          else if ((mode == 1 && i + 1 == upto) || (mode == 2 && r.chance(0.2))) k = r.below(w.data.size() + 1);
          if (k < w.data.size()) lost += w.data.size() - k;
          if (!k) continue;
          if (now.size() < w.off) {
            zeros = true;
            now.resize(w.off, '\0');
          }
          now.replace(w.off, std::string::npos, w.data.substr(0, k));
        }
        // the size may have been made durable without the data
        if (lost && r.chance(0.3)) {
          zeros = true;
          now.resize(f.cached.size(), '\0');
        }
        f.cached = now;
      }
      f.durable = f.cached;
      f.dirty.clear();
      f.truncated = false;
    }
    names = n;
    durable_names = n;
    return lost;
  }
};

// Stream buffer writing to a file through a user-space buffer of a given size.
// crash_at: the machine stops at the k-th device write (raises Crashed).
struct Crashed {};
class DiskOut : public std::streambuf {
 public:
  DiskOut(Disk &d, File f, size_t buffer, long crash_at) : d_(d), f_(f), cap_(buffer ? buffer : 1), crash_at_(crash_at) {}
  bool failed = false, crashed = false;

 protected:
  int_type overflow(int_type ch) override {
    HarnessScope h;
    if (traits_type::eq_int_type(ch, traits_type::eof())) return traits_type::not_eof(ch);
    char x = (char)ch;
    return take(&x, 1) == 1 ? ch : traits_type::eof();
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    HarnessScope h;
    return take(s, n);
  }
  int sync() override {
    HarnessScope h;
    return drain() ? 0 : -1;
  }

 private:
  std::streamsize take(const char *s, std::streamsize n) {
    for (std::streamsize i = 0; i < n; ++i) {
      if (buf_.size() >= cap_ && !drain()) return i;
      buf_.push_back(s[i]);
    }
    return n;
  }
  bool drain() {
    if (failed || crashed) return false;
    if (buf_.empty()) return true;
    if (crash_at_ >= 0 && crash_at_-- == 0) {
      crashed = true;
      return false;
    }
    size_t k;
    bool ok = d_.append(f_, buf_.data(), buf_.size(), k);
    buf_.erase(0, k);
    failed = !ok;
    return ok;
  }
  Disk &d_;
  File f_;
  size_t cap_;
  long crash_at_;
  std::string buf_;
};

// Stream buffer reading text in chunks of seeded sizes, failing after `good`
// bytes when good >= 0 (kind 0: end of file, 1: raises).
class ChunkIn : public std::streambuf {
 public:
  ChunkIn(const std::string &s, u64 seed, size_t max_chunk, long good, int kind)
      : s_(s), r_(seed), max_(max_chunk ? max_chunk : s.size() + 1), good_(good), kind_(kind) {
    mode_ = r_.range(0, 3);
    if (mode_ & 1 && limit() > 0) underflow();  // something was read ahead already
  }
  bool fired = false;

 protected:
  int_type underflow() override {
    HarnessScope h;
    const size_t n = limit();
    if (at_ >= n) {
      if (n < s_.size()) {
        fired = true;
        if (kind_ == 1) throw InjectedError();
      }
      return traits_type::eof();
    }
    size_t k = std::min(n - at_, (size_t)r_.below(max_) + 1);
    chunk_ = s_.substr(at_, k);
    at_ += k;
    setg(&chunk_[0], &chunk_[0], &chunk_[0] + k);
    return traits_type::to_int_type(chunk_[0]);
  }
  // What can be had without waiting: unknown, or the beginning of the rest
  std::streamsize showmanyc() override {
    HarnessScope h;
    if (mode_ < 2) return 0;
    if (at_ >= s_.size()) return -1;
    return (std::streamsize)std::min(limit() - at_, (size_t)r_.below(max_));
  }

 private:
  size_t limit() const { return good_ >= 0 && (size_t)good_ < s_.size() ? (size_t)good_ : s_.size(); }
  int mode_ = 0;
  std::string s_, chunk_;
  Rng r_;
  size_t max_, at_ = 0;
  long good_;
  int kind_;
};
}  // namespace sim
#endif
