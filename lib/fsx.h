// The file operations of the code under test, seen one by one: logged, so that the file can be put
// in the state of any moment (crash points, torn writes), and made to fail.
//
// stdio streams on files in the scratch directory are opened over a cookie (fopencookie), so that
// every read, write, seek and close the C library makes for its buffers is one operation here; the
// link wraps fopen, fileno, ftruncate, rename, remove and unlink. Files elsewhere are untouched.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace fsx {

enum Kind { kOpen, kCreate, kRead, kSeek, kWrite, kTruncate, kClose, kRename, kRemove };
const char* kindName(Kind k);

struct Op {
  Kind kind{};
  std::string path;
  std::string path2; // of a rename
  int64_t pos{}; // of a write or read, or the size of a truncation
  std::vector<uint8_t> data; // of a write
  size_t size{}; // of a read or write
  std::string str() const;
};

struct Fault {
  bool fail = false; // with this error
  int err = 5; // EIO
  int64_t partial = -1; // of a write: these many bytes are written first; of a read: no more than these are read
  bool eof = false; // of a read: no data, and no error
  bool applied = false; // of a close: the file is closed anyway (always so), of a rename: no
};

using Images = std::map<std::string, std::vector<uint8_t>>;

void begin(bool log, std::function<Fault(const Op&)> fault = {});
void end();
/// The size of the buffers of the streams opened from now on: -1 leaves the C library's, 0 has none.
void setBuffer(int size);
const std::vector<Op>& log(); // all that changed files, since begin()
uint64_t operations(); // of any kind, since begin()

Images snapshot(const std::string& dir);
void apply(Images& images, const Op& op, int64_t partial = -1);
/// The bytes at which to cut a write: all of them when it has up to `all`, or else the first and
/// last `ends`, and the middle.
std::vector<int64_t> cutPoints(size_t size, size_t all, size_t ends);
/// Write the images, with the directory `from` replaced by `to`, which is emptied first.
void materialize(const Images& images, const std::string& from, const std::string& to);

} // namespace fsx
