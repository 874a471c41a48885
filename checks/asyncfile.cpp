// The asynchronous disk file, over a simulated device: every order of completion of its writes, every
// failure, against the same operations on the plain disk file.
//   C14
#include "vrsutil.h"

#include <aio.h>
#include <atomic>
#include <mutex>
#include <thread>

#include <vrs/AsyncDiskFileChunk.h>
#include <vrs/DiskFile.h>

#include "mcsched.h"

using namespace std;
using namespace vu;

// ---------- the device ----------
namespace {

struct Write {
  aiocb* cb{};
  int fd{};
  uint64_t hash{};
  enum { kPending, kWritten, kDone } stage = kPending;
  int error{};
  ssize_t result{};
  bool reaped = false;
};

struct Device {
  bool on = false;
  atomic<int> faultsLeft{0};
  atomic<int> faultCount{0};
  string faults;
  map<int, bool> files; // descriptors, and if they are open for direct access
  list<Write> writes;
  vector<thread> threads;
  size_t depth = 0;
  uint64_t shape = 0;
} gDev;

// (ThreadSanitizer also watches the device itself)
recursive_mutex& devMutex() {
  static recursive_mutex* m = new recursive_mutex;
  return *m;
}

bool ours(int fd) {
  return gDev.on && gDev.files.count(fd) != 0;
}
// Does this operation fail? (0: no)
int faulty(const char* what, int kinds) {
  if (gDev.faultsLeft.load(memory_order_relaxed) == 0) {
    return 0;
  }
  const int f = mc::choose(kinds + 1, what, 1);
  if (f != 0) {
    gDev.faultsLeft.fetch_sub(1, memory_order_relaxed);
    gDev.faultCount.fetch_add(1, memory_order_relaxed);
    lock_guard<recursive_mutex> guard(devMutex());
    gDev.faults += string(what) + " fails; ";
    mc::note(string(what) + " fails");
  }
  return f;
}

} // namespace

extern "C" {
int __real_open(const char*, int, ...);
int __real_close(int);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
int __real_ftruncate(int, off_t);
off64_t __real_lseek64(int, off64_t, int);

int __wrap_open(const char* path, int flags, int mode) {
  const bool mine = gDev.on && strstr(path, "/async") != nullptr && strncmp(path, mc::scratch().c_str(), mc::scratch().size()) == 0;
  if (mine && faulty("open", 1) != 0) {
    errno = EIO;
    return -1;
  }
  const int fd = __real_open(path, flags & ~O_DIRECT, mode);
  if (mine && fd >= 0) {
    gDev.files[fd] = (flags & O_DIRECT) != 0;
  }
  return fd;
}
int __wrap_open64(const char* path, int flags, int mode) {
  return __wrap_open(path, flags, mode);
}
int __wrap_close(int fd) {
  if (ours(fd)) {
    lock_guard<recursive_mutex> guard(devMutex());
    for (auto& w : gDev.writes) {
      if (w.fd == fd && w.stage == Write::kPending) {
        mc::fail("closed-while-writing", "offset " + S(w.cb->aio_offset));
      }
    }
    gDev.files.erase(fd);
    if (faulty("close", 1) != 0) {
      __real_close(fd);
      errno = EIO;
      return -1;
    }
  }
  return __real_close(fd);
}
static bool misaligned(int fd, const void* p, size_t n, int64_t offset) {
  return gDev.files[fd] && (n % 512 != 0 || offset % 512 != 0 || reinterpret_cast<uintptr_t>(p) % 512 != 0);
}
ssize_t __wrap_pread(int fd, void* p, size_t n, off_t offset) {
  if (ours(fd)) {
    if (misaligned(fd, p, n, offset)) {
      mc::fail("misaligned-read", S(int64_t(n)) + " bytes at " + S(offset));
    }
    const int f = faulty("read", 1);
    if (f != 0) {
      errno = EIO;
      return -1;
    }
  }
  return __real_pread(fd, p, n, offset);
}
ssize_t __wrap_pread64(int fd, void* p, size_t n, off_t offset) {
  return __wrap_pread(fd, p, n, offset);
}
ssize_t __wrap_pwrite(int fd, const void* p, size_t n, off_t offset) {
  if (ours(fd)) {
    if (misaligned(fd, p, n, offset)) {
      mc::fail("misaligned-write", S(int64_t(n)) + " bytes at " + S(offset));
    }
    const int f = faulty("write", n > 1 ? 2 : 1);
    if (f == 1) {
      errno = ENOSPC;
      return -1;
    } else if (f == 2) {
      return __real_pwrite(fd, p, n / 2, offset);
    }
  }
  return __real_pwrite(fd, p, n, offset);
}
ssize_t __wrap_pwrite64(int fd, const void* p, size_t n, off_t offset) {
  return __wrap_pwrite(fd, p, n, offset);
}
int __wrap_ftruncate(int fd, off_t size) {
  if (ours(fd)) {
    lock_guard<recursive_mutex> guard(devMutex());
    for (auto& w : gDev.writes) {
      mc::check(w.fd != fd || w.stage != Write::kPending, "truncated-while-writing");
    }
    if (faulty("truncate", 1) != 0) {
      errno = EIO;
      return -1;
    }
  }
  return __real_ftruncate(fd, size);
}
int __wrap_ftruncate64(int fd, off_t size) {
  return __wrap_ftruncate(fd, size);
}
off64_t __wrap_lseek64(int fd, off64_t pos, int whence) {
  if (ours(fd) && faulty("seek", 1) != 0) {
    errno = EIO;
    return -1;
  }
  return __real_lseek64(fd, pos, whence);
}
off64_t __wrap_lseek(int fd, off64_t pos, int whence) {
  return __wrap_lseek64(fd, pos, whence);
}

int __wrap_aio_write(aiocb* cb) {
  if (!ours(cb->aio_fildes)) {
    mc::fail("write-to-closed-file", S(cb->aio_fildes));
  }
  if (faulty("submission", 1) != 0) {
    errno = EAGAIN;
    return -1;
  }
  const void* data = const_cast<const void*>(cb->aio_buf);
  if (misaligned(cb->aio_fildes, data, cb->aio_nbytes, cb->aio_offset)) {
    mc::fail("misaligned-write", S(int64_t(cb->aio_nbytes)) + " bytes at " + S(cb->aio_offset));
  }
  Write* w = nullptr;
  {
    lock_guard<recursive_mutex> guard(devMutex());
    gDev.writes.emplace_back();
    w = &gDev.writes.back();
    w->cb = cb;
    w->fd = cb->aio_fildes;
    w->hash = mc::hashBytes(data, cb->aio_nbytes);
    size_t inFlight = 0; // (each chunk has its own)
    for (auto& x : gDev.writes) {
      inFlight += x.fd == w->fd && x.stage == Write::kPending;
    }
    mc::check(inFlight <= gDev.depth, "too-many-writes", S(int64_t(inFlight)));
  }
  mc::count("asynchronous writes");
  gDev.threads.emplace_back([w, cb] {
    sched::nameThread("device");
    sched::point("device");
    {
      lock_guard<recursive_mutex> guard(devMutex());
      const char* data = static_cast<const char*>(const_cast<const void*>(cb->aio_buf));
      if (mc::hashBytes(data, cb->aio_nbytes) != w->hash) {
        mc::fail("buffer-changed", "the write at " + S(cb->aio_offset) + " isn't complete");
      }
      gDev.shape = mc::hashInt(uint64_t(cb->aio_offset), gDev.shape);
      const int f = faulty("completion", 3);
      if (f == 1) {
        w->error = EIO;
        w->result = -1;
      } else if (f == 2) {
        // a short write
        w->result = __real_pwrite(w->fd, data, cb->aio_nbytes / 2, cb->aio_offset);
      } else if (f == 3) {
        w->error = ECANCELED;
        w->result = -1;
      } else {
        w->result = __real_pwrite(w->fd, data, cb->aio_nbytes, cb->aio_offset);
        mc::check(w->result == ssize_t(cb->aio_nbytes), "device", S(w->result));
      }
      w->stage = Write::kWritten;
    }
    cb->aio_sigevent.sigev_notify_function(cb->aio_sigevent.sigev_value);
  });
  return 0;
}
int __wrap_aio_write64(aiocb* cb) {
  return __wrap_aio_write(cb);
}
static Write& writeOf(const aiocb* cb) {
  for (auto w = gDev.writes.rbegin(); w != gDev.writes.rend(); ++w) {
    if (w->cb == cb) {
      return *w;
    }
  }
  mc::fail("unknown-write", "");
}
int __wrap_aio_error(const aiocb* cb) {
  lock_guard<recursive_mutex> guard(devMutex());
  Write& w = writeOf(cb);
  return w.stage == Write::kPending ? EINPROGRESS : w.error;
}
int __wrap_aio_error64(const aiocb* cb) {
  return __wrap_aio_error(cb);
}
ssize_t __wrap_aio_return(aiocb* cb) {
  lock_guard<recursive_mutex> guard(devMutex());
  Write& w = writeOf(cb);
  mc::check(w.stage == Write::kWritten && !w.reaped, "aio_return", "before the write is complete, or twice");
  w.reaped = true;
  return w.result;
}
ssize_t __wrap_aio_return64(aiocb* cb) {
  return __wrap_aio_return(cb);
}
}

namespace {

void startDevice(size_t depth, int faults) {
  gDev.on = true;
  gDev.faultsLeft = faults;
  gDev.faultCount = 0;
  gDev.faults.clear();
  gDev.files.clear();
  gDev.writes.clear();
  gDev.depth = depth;
  gDev.shape = 0;
}
void stopDevice() {
  for (auto& t : gDev.threads) {
    t.join();
  }
  gDev.threads.clear();
  gDev.on = false;
}

struct Engine {
  const char* query;
  size_t depth;
};
const vector<Engine> kEngines = {
    {"ioengine=aio&direct=true&buffer_size=512&buffer_count=2&offset_align=512&mem_align=512", 2},
    {"ioengine=aio&direct=true&buffer_size=1024&buffer_count=3&offset_align=512&mem_align=512&iodepth=1", 1},
    {"ioengine=aio&direct=false&buffer_size=512&buffer_count=1&offset_align=512&mem_align=512", 1},
    {"ioengine=aio&direct=false&buffer_size=512&buffer_count=3&offset_align=512&mem_align=512&iodepth=2", 2},
    {"ioengine=psync&direct=true&buffer_size=512&buffer_count=2&offset_align=512&mem_align=512", 1},
    {"ioengine=psync&direct=false&buffer_size=1024&buffer_count=1&offset_align=512&mem_align=512", 1},
    {"ioengine=sync&direct=true&buffer_size=512&offset_align=512&mem_align=512", 1},
    {"ioengine=sync&direct=false", 1},
};

FileSpec::Extras options(const Engine& e) {
  FileSpec::Extras x;
  string s = e.query;
  size_t at = 0;
  while (at < s.size()) {
    const size_t end = min(s.find('&', at), s.size()), eq = s.find('=', at);
    x[s.substr(at, eq - at)] = s.substr(eq + 1, end - eq - 1);
    at = end + 1;
  }
  return x;
}

// ---------- operations ----------
struct Op {
  char kind;
  int64_t n;
};
string print(const Op& o) {
  switch (o.kind) {
    case 'w': return "write " + S(o.n);
    case 'o': return "overwrite " + S(o.n);
    case 's': return "seek " + S(o.n);
    case 'e': return "seek to the end";
    case 'k': return "skip " + S(o.n);
    case 'r': return "read " + S(o.n);
    case 'c': return "add chunk";
    case 't': return "truncate";
    case 'u': return "reopen for updates";
    case 'R': return "reopen";
  }
  return "?";
}

// Both files
struct Pair {
  DiskFile plain;
  AsyncDiskFile async;
  string plainPath, asyncPath;
  FileSpec::Extras opts;
  bool created = true; // or open
  bool reading = true;
  uint32_t tag = 0;
  bool failed = false; // the asynchronous file said so
  bool strict = true; // nothing is made to fail
  bool single = true;

  explicit Pair(const Engine& e) : opts(options(e)) {
    const string dir = mc::scratch();
    mkdir((dir + "/plain").c_str(), 0777);
    mkdir((dir + "/async").c_str(), 0777);
    clearDir(dir + "/plain");
    clearDir(dir + "/async");
    plainPath = dir + "/plain/file";
    asyncPath = dir + "/async/file";
  }
  void compare(int p, int a, const string& what) {
    if (strict) {
      if (p != a) {
        mc::fail("status", what + ": " + S(a) + " rather than " + S(p));
      }
    } else if (a != 0) {
      if (gDev.faultCount == 0 && p != a) {
        mc::fail("status", what + ": " + S(a) + " rather than " + S(p) + ", with no failure");
      }
      if (p == 0) {
        failed = true;
      }
    }
  }
  void positions(const string& what) {
    if (failed || !plain.isOpened() || !async.isOpened()) {
      return;
    }
    const int64_t p = plain.getPos(), a = async.getPos();
    if (p != a) {
      mc::fail("position", what + ": " + S(a) + " rather than " + S(p));
    }
    if (plain.getChunkPos() != async.getChunkPos() || plain.getTotalSize() != async.getTotalSize() || plain.getLastRWSize() != async.getLastRWSize()) {
      mc::fail("sizes", what + ": chunk position " + S(async.getChunkPos()) + " and " + S(plain.getChunkPos()) + ", total " + S(async.getTotalSize()) + " and " + S(plain.getTotalSize()) + ", moved " +
          S(int64_t(async.getLastRWSize())) + " and " + S(int64_t(plain.getLastRWSize())));
    }
  }
  void create() {
    const int p = plain.create(plainPath), a = async.create(asyncPath, opts);
    compare(p, a, "create");
  }
  bool open(int chunks) {
    FileSpec ps, as;
    for (int k = 0; k < chunks; ++k) {
      const string x = k == 0 ? "" : "_" + S(k);
      ps.chunks.push_back(plainPath + x);
      as.chunks.push_back(asyncPath + x);
    }
    as.extras = opts;
    const int p = plain.openSpec(ps), a = async.openSpec(as);
    compare(p, a, "open");
    created = false;
    return a == 0;
  }
  void close() {
    const int p = plain.close(), a = async.close();
    compare(p, a, "close");
  }
  // false when the operation makes no sense now
  bool apply(const Op& o) {
    const string what = mc::noting() ? print(o) : string();
    if (mc::noting()) {
      mc::note(what);
    }
    mc::transition();
    switch (o.kind) {
      case 'w':
      case 'o': {
        const auto v = payload(size_t(o.n), ++tag, kNoise);
        if (!created) {
          // (stdio wants a seek between reading and writing)
          const int64_t pos = plain.getPos();
          const int p = plain.setPos(pos), a = async.setPos(pos);
          compare(p, a, what);
          if (p != 0 || a != 0) {
            return true;
          }
        }
        const int p = o.kind == 'w' ? plain.write(v.data(), v.size()) : plain.overwrite(v.data(), v.size());
        const int a = o.kind == 'w' ? async.write(v.data(), v.size()) : async.overwrite(v.data(), v.size());
        compare(p, a, what);
      } break;
      case 's': {
        const int p = plain.setPos(o.n), a = async.setPos(o.n);
        compare(p, a, what);
      } break;
      case 'e': {
        const int64_t size = plain.getTotalSize();
        const int p = plain.setPos(size), a = async.setPos(size);
        compare(p, a, what);
      } break;
      case 'k': {
        const int p = plain.skipForward(o.n), a = async.skipForward(o.n);
        compare(p, a, what);
      } break;
      case 'r': {
        if (created) {
          return false; // (the plain one is for writing only)
        }
        const int64_t pos = plain.getPos();
        int p = plain.setPos(pos), a = async.setPos(pos);
        compare(p, a, what);
        if (p != 0 || a != 0) {
          return true;
        }
        vector<uint8_t> x(size_t(o.n), 1), y(size_t(o.n), 1);
        p = plain.read(x.data(), x.size());
        a = async.read(y.data(), y.size());
        compare(p, a, what);
        if (!failed && plain.getLastRWSize() == async.getLastRWSize() && x != y) {
          mc::fail("read", what);
        }
      } break;
      case 'c': {
        const int p = plain.addChunk(), a = async.addChunk();
        compare(p, a, what);
        created |= p == 0;
      } break;
      case 't': {
        const int p = plain.truncate(), a = async.truncate();
        compare(p, a, what);
      } break;
      case 'u': {
        if (created) {
          return false;
        }
        const int p = plain.reopenForUpdates(), a = async.reopenForUpdates();
        compare(p, a, what);
      } break;
      case 'R': {
        const int chunks = int(plain.getFileChunks().size());
        close();
        contents(what);
        if (!failed) {
          open(chunks);
        }
      } break;
    }
    positions(what);
    return true;
  }
  void contents(const string& what) {
    if (failed) {
      return;
    }
    gDev.on = false;
    const auto names = listDir(mc::scratch() + "/plain");
    if (names != listDir(mc::scratch() + "/async")) {
      mc::fail("chunks", what + ": other files");
    }
    for (auto& n : names) {
      vector<uint8_t> x, y;
      slurp(mc::scratch() + "/plain/" + n, x);
      slurp(mc::scratch() + "/async/" + n, y);
      if (x != y) {
        size_t k = 0;
        while (k < x.size() && k < y.size() && x[k] == y[k]) {
          ++k;
        }
        mc::fail("content", what + ": " + n + " has " + S(int64_t(y.size())) + " bytes rather than " + S(int64_t(x.size())) + ", and differs from " + S(int64_t(k)) + (gDev.faults.empty() ? "" : ", no error was reported: " + gDev.faults));
      }
    }
    gDev.on = true;
  }
};

void controlled(const function<void()>& f) {
  sched::Config c;
  c.atomicsArePoints = false;
  sched::run(f, c);
}

// ---------- sequences ----------
const vector<Op> kCreateOps = {{'.', 0}, {'w', 1}, {'w', 511}, {'w', 512}, {'w', 513}, {'w', 1200}, {'s', 0}, {'s', 512}, {'s', 700}, {'e', 0}, {'o', 600}, {'c', 0}, {'t', 0}, {'k', 100}, {'R', 0}};
const vector<Op> kUpdateOps = {{'.', 0}, {'r', 1}, {'r', 600}, {'r', 1100}, {'s', 0}, {'s', 512}, {'s', 1000}, {'e', 0}, {'k', 88}, {'u', 0}, {'o', 100}, {'o', 512}, {'o', 1300}, {'w', 600}, {'t', 0}, {'c', 0}, {'R', 0}};

void sequence(bool update, int depth) {
  // (when updating, the engines only differ by their writes)
  const Engine& e = update && !mc::thorough() ? kEngines[size_t(mc::choose(4, "engine")) * 2] : mc::pick(kEngines, "engine");
  mc::note(e.query);
  controlled([&] {
    startDevice(e.depth, 0);
    {
      Pair f(e);
      const auto& ops = update ? kUpdateOps : kCreateOps;
      if (update) {
        // two chunks
        const auto v = payload(1600, 99, kNoise);
        for (auto& p : {f.plainPath, f.asyncPath}) {
          spit(p, v.data(), 1000);
          spit(p + "_1", v.data() + 1000, 600);
        }
        const bool one = mc::choose(2, "one chunk") == 1;
        f.open(one ? 1 : 2);
        if (one) {
          unlink((f.plainPath + "_1").c_str());
          unlink((f.asyncPath + "_1").c_str());
        }
        if (mc::choose(2, "update") == 0) {
          f.apply({'u', 0});
        }
      } else {
        f.create();
      }
      for (int k = 0; k < depth; ++k) {
        const Op& o = mc::pick(ops, "op");
        if (o.kind == '.' || !f.apply(o)) {
          break;
        }
      }
      f.close();
      f.contents("closed");
      mc::state(mc::hashInt(gDev.shape, mc::hashInt(uint64_t(&e - &kEngines[0]))));
    }
    stopDevice();
  });
  mc::traceValidated();
}

// ---------- histories, with failures ----------
struct History {
  const char* name;
  vector<Op> ops;
  bool update;
};
const vector<History> kHistories = {
    {"short", {{'w', 100}}, false},
    {"one-buffer", {{'w', 1024}}, false},
    {"several-buffers", {{'w', 100}, {'w', 1600}, {'w', 400}}, false},
    {"header-rewritten", {{'w', 1300}, {'s', 0}, {'o', 60}, {'e', 0}, {'s', 1300}, {'w', 700}}, false},
    {"chunks", {{'w', 1100}, {'c', 0}, {'w', 1100}, {'s', 0}, {'o', 20}}, false},
    {"back-and-forth", {{'w', 600}, {'c', 0}, {'w', 1536}, {'s', 10}, {'s', 2136}, {'w', 10}}, false},
    {"chunk-twice", {{'w', 1024}, {'c', 0}, {'w', 512}, {'c', 0}, {'w', 1}}, false},
    {"truncated", {{'w', 1600}, {'s', 700}, {'t', 0}, {'w', 512}}, false},
    {"updated", {{'u', 0}, {'s', 100}, {'o', 600}, {'s', 0}, {'r', 800}, {'e', 0}, {'w', 1024}}, true},
    {"chunks-updated", {{'u', 0}, {'s', 900}, {'o', 1200}, {'s', 0}, {'o', 512}, {'s', 950}, {'r', 100}}, true},
    {"read-back", {{'w', 2000}, {'R', 0}, {'r', 2000}}, false},
};

void history(int which, const Engine& e, int faults) {
  const History& h = kHistories[size_t(which)];
  mc::note(string(h.name) + ", " + e.query);
  controlled([&] {
    startDevice(e.depth, 0);
    {
      Pair f(e);
      f.strict = faults == 0;
      const bool stop = faults > 0 && mc::choose(2, "stop at an error") == 1;
      if (!h.update) {
        gDev.faultsLeft = faults;
      }
      if (h.update) {
        const auto v = payload(1600, 99, kNoise);
        for (auto& p : {f.plainPath, f.asyncPath}) {
          spit(p, v.data(), 1000);
          spit(p + "_1", v.data() + 1000, 600);
        }
        gDev.faultsLeft = faults;
        f.open(2);
      } else {
        f.create();
      }
      for (auto& o : h.ops) {
        if ((f.failed && (stop || !f.async.isOpened())) || !f.plain.isOpened()) {
          break;
        }
        f.apply(o);
      }
      f.close();
      gDev.faultsLeft = 0;
      f.contents("closed");
      if (!f.failed) {
        mc::count("nothing failed");
      } else {
        // the file object still works
        Pair g(e);
        const auto v = payload(700, 77, kNoise);
        int status = f.async.create(g.asyncPath, g.opts);
        status = status != 0 ? status : f.async.write(v.data(), v.size());
        const int closing = f.async.close();
        vector<uint8_t> x;
        slurp(g.asyncPath, x);
        if (status != 0 || closing != 0 || x != v) {
          mc::fail("after-a-failure", "status " + S(status) + ", " + S(closing) + ", " + S(int64_t(x.size())) + " bytes, after " + gDev.faults);
        }
        mc::count("failure reported");
      }
      mc::state(mc::hashInt(gDev.shape, mc::hashInt(uint64_t(&e - &kEngines[0]), mc::hashInt(uint64_t(which), mc::hashStr(gDev.faults)))));
    }
    stopDevice();
  });
  mc::traceValidated();
}

// ---------- recordings ----------
struct Plain : public Recordable {
  Plain() : Recordable(RecordableTypeId::UnitTest1) {
    setCompression(CompressionPreset::None);
  }
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
  void data(double t, const vector<uint8_t>& v) {
    createRecord(t, Type::DATA, 1, DataSource(DataSourceChunk(v.data(), v.size())));
  }
};

void recording(int faults) {
  const Engine& e = kEngines[size_t(mc::choose(6, "engine"))];
  const int mode = mc::choose(3, "mode");
  mc::note(e.query);
  controlled([&] {
    startDevice(e.depth, 0);
    {
      const string dir = mc::scratch();
      cleanScratch();
      mkdir((dir + "/async").c_str(), 0777);
      const string path = dir + "/async/file.vrs";
      Recordable::resetNewInstanceIds();
      int status = 0;
      vector<vector<uint8_t>> sent;
      {
        Plain p;
        RecordFileWriter w;
        w.addRecordable(&p);
        w.setWriteFileHandler(make_unique<AsyncDiskFile>());
        FileSpec spec;
        spec.chunks = {path};
        spec.extras = options(e);
        spec.fileHandlerName = AsyncDiskFile::staticName();
        const string uri = spec.toJson();
        gDev.faultsLeft = faults;
        for (int k = 0; k < 3; ++k) {
          sent.push_back(payload(size_t(k == 1 ? 1500 : 400), uint32_t(k + 1), kNoise));
        }
        auto data = [&](int k) {
          p.data(1 + k, sent[size_t(k)]);
        };
        if (mode == 0) {
          for (int k = 0; k < 3; ++k) {
            data(k);
          }
          status = w.writeToFile(uri);
        } else {
          status = mode == 1 ? w.createFileAsync(uri) : w.createChunkedFile(uri, 1);
          for (int k = 0; k < 3 && status == 0; ++k) {
            data(k);
            if (k != 1) {
              w.writeRecordsAsync(100);
            }
          }
          const int closing = w.waitForFileClosed();
          status = status != 0 ? status : closing;
        }
      }
      gDev.faultsLeft = 0;
      if (status != 0 && gDev.faultCount == 0) {
        mc::fail("recording", "status " + S(status));
      }
      if (status == 0) {
        const Content c = readFile(path);
        bool same = c.status == 0 && c.readErrors == 0 && c.recs.size() == sent.size() && c.hasIndex;
        for (size_t k = 0; same && k < sent.size(); ++k) {
          same = c.recs[k].data == sent[k];
        }
        if (!same) {
          mc::fail("recording-content", S(c.status) + ", " + S(int64_t(c.recs.size())) + " records, " + S(c.readErrors) + " errors" + (gDev.faults.empty() ? "" : ", no error was reported: " + gDev.faults));
        }
      }
      mc::state(mc::hashInt(gDev.shape, mc::hashInt(uint64_t(mode), mc::hashStr(gDev.faults))));
    }
    stopDevice();
  });
  mc::traceValidated();
}

} // namespace

int main(int argc, char** argv) {
  bool deep = false;
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
  }
  mc::add({"create-sequences", [deep] { sequence(false, deep ? 4 : 3); }, 0});
  mc::add({"update-sequences", [deep] { sequence(true, deep ? 4 : 3); }, 0});
  for (size_t h = 0; h < kHistories.size(); ++h) {
    for (size_t e = 0; e < kEngines.size(); ++e) {
      const string name = string(kHistories[h].name) + "-" + S(int64_t(e));
      if (e < 4) {
        mc::add({"order-" + name, [h, e] { history(int(h), kEngines[e], 0); }, deep ? 3 : e == 3 || e == 0 ? 1 : 2});
      }
      mc::add({"failure-" + name, [h, e, deep] { history(int(h), kEngines[e], deep ? 2 : 1); }, deep ? 3 : e == 0 || e == 3 ? 1 : 2});
    }
  }
  mc::add({"recording", [] { recording(0); }, deep ? 2 : 1});
  mc::add({"recording-failure", [] { recording(1); }, deep ? 2 : 1});
  return mc::main(argc, argv, "C14");
}
