// C25: recordings in chunks, with a handler told of each chunk.
#include "fsx.h"
#include "mcsched.h"
#include "vrsutil.h"

#include <functional>
#include <thread>

#include <vrs/NewChunkHandler.h>

using namespace std;
using namespace vu;

namespace {

struct Announced {
  string path;
  size_t index;
  bool last;
  vector<uint8_t> content;
};

struct Log {
  vector<Announced> calls;
  bool alive = false;
  string keep; // where chunks are moved when announced, or nothing
};

struct Handler : public NewChunkHandler {
  explicit Handler(Log& l) : log(l) {
    log.alive = true;
  }
  ~Handler() override {
    log.alive = false;
  }
  void newChunk(const string& path, size_t index, bool isLastChunk) override {
    Announced a{path, index, isLastChunk, {}};
    mc::check(slurp(path, a.content), "announced-chunk-missing", path);
    log.calls.push_back(std::move(a));
    mc::transition();
    if (!log.keep.empty()) {
      const string to = log.keep + "/" + S(int64_t(index));
      mc::check(access(to.c_str(), F_OK) != 0, "announced-twice", path + " as " + S(int64_t(index)));
      renameat(AT_FDCWD, path.c_str(), AT_FDCWD, to.c_str());
    }
  }
  Log& log;
};

string str(const Log& l) {
  string s;
  for (auto& a : l.calls) {
    s += "    " + S(int64_t(a.index)) + " " + a.path + " (" + S(int64_t(a.content.size())) + " bytes)" + (a.last ? " LAST" : "") + "\n";
  }
  return s;
}

struct Plan {
  size_t chunkMB = 1;
  bool async = false; // AsyncDiskFile
  int threads = 0;
  int taken = 0; // the handler moves the chunks away
  struct Item {
    int size;
    bool batch;
  };
  vector<Item> items;
};

struct Made {
  int create = 0, status = 0;
  vector<Rec> recs;
};

// One recording, and the announcements made for it.
void produce(const Plan& p, RecordFileWriter& w, Dev& a, const string& path, Log& log, Made& out) {
  a.made.clear();
  a.autoTs = 9;
  const string where = p.async ? "{\"storage\":\"asyncdiskfile\",\"chunks\":[\"" + path + "\"],\"ioengine\":\"sync\"}" : path;
  log.calls.clear();
  out.create = out.status = w.createChunkedFile(where, p.chunkMB, make_unique<Handler>(log));
  if (out.create != 0) {
    return;
  }
  double t = 10;
  for (auto& it : p.items) {
    a.create(t, Type::DATA, 1, payload(size_t(it.size), a.nextTag(), kNoise));
    t += 1;
    if (it.batch) {
      w.writeRecordsAsync(t);
      this_thread::sleep_for(chrono::seconds(3));
    }
  }
  out.status = w.waitForFileClosed();
  out.recs = a.made;
}

vector<string> chunkNames(const string& dir, const string& base) {
  vector<string> v;
  for (size_t i = 0;; ++i) {
    const string n = dir + "/" + base + (i ? "_" + to_string(i) : "");
    if (access(n.c_str(), F_OK) != 0) {
      return v;
    }
    v.push_back(n);
  }
}

// What the handler was told, against what is there in the end.
void verify(const Plan& p, const string& dir, const string& base, const Log& log, const Made& m, bool strict, bool sizes = true) {
  const string path = dir + "/" + base;
  auto bad = [&](const char* key, const string& what = {}) { mc::fail(key, what + "\nannounced:\n" + str(log) + "in the end:\n    " + [&]() {
                                                              string s;
                                                              for (auto& n : listDir(dir)) {
                                                                vector<uint8_t> b;
                                                                slurp(dir + "/" + n, b);
                                                                s += n + " (" + S(int64_t(b.size())) + ") ";
                                                              }
                                                              return s;
                                                            }()); };
  if (log.alive) {
    bad("handler-kept");
  }
  vector<string> chunks;
  if (log.keep.empty()) {
    chunks = chunkNames(dir, base);
  } else {
    if (!chunkNames(dir, base).empty()) {
      bad("chunk-not-announced");
    }
    for (size_t i = 0; i < log.calls.size(); ++i) {
      const string from = log.keep + "/" + to_string(i);
      if (access(from.c_str(), F_OK) != 0) {
        bad("index-not-announced", to_string(i));
      }
      const string to = path + (i ? "_" + to_string(i) : "");
      renameat(AT_FDCWD, from.c_str(), AT_FDCWD, to.c_str());
      chunks.push_back(to);
    }
  }
  vector<int> seen(chunks.size());
  for (size_t i = 0; i < log.calls.size(); ++i) {
    const Announced& a = log.calls[i];
    if (a.index >= chunks.size()) {
      bad("announced-nothing", to_string(a.index));
    }
    if (a.path != chunks[a.index]) {
      bad("announced-path", a.path + " is not " + chunks[a.index]);
    }
    if (seen[a.index]++ != 0) {
      bad("announced-twice", a.path);
    }
    vector<uint8_t> b;
    slurp(chunks[a.index], b);
    if (b != a.content) {
      bad("announced-before-final", a.path + " has now " + S(int64_t(b.size())) + " bytes");
    }
    if (strict && a.last != (i + 1 == log.calls.size())) {
      bad("last-flag");
    }
  }
  if (!strict) {
    return;
  }
  if (log.calls.size() != chunks.size()) {
    bad("not-announced");
  }
  // and the chunks are the file
  Content c = readFile(path);
  if (c.status != 0 || c.readErrors != 0 || !c.hasIndex) {
    bad("file-unreadable", S(c.status));
  }
  compareRecs(m.recs, c.recs, "records");
  // (the limit is in units of 1 KB here)
  size_t limit = p.chunkMB * 1024, k = 0;
  for (size_t i = 1; i < chunks.size() && limit > 0; ++i) {
    vector<uint8_t> b;
    slurp(chunks[i], b);
    k += b.size() > limit; // a record larger than a chunk has its own chunk
  }
  size_t large = 0;
  for (auto& r : m.recs) {
    large += r.data.size() + 32 > limit;
  }
  if (sizes && limit > 0 && k > large) {
    bad("chunk-too-large");
  }
  uint64_t h = 5;
  for (auto& a : log.calls) {
    h = mc::hashInt(a.index, h);
    h = mc::hashBytes(a.content.data(), a.content.size(), h);
  }
  mc::state(h);
}

void scheduled(const function<void()>& f) {
  sched::Config cfg;
  cfg.freeSwitchAtBlock = false;
  cfg.timeoutCost = 100;
  cfg.maxSteps = 20000000;
  cfg.switchCost = 100;
  sched::run(f, cfg);
}

Plan choosePlan(int maxRecs, bool options) {
  Plan p;
  static const size_t mbs[] = {1, 0, 2, 3};
  p.chunkMB = mbs[mc::choose(4, "chunkMB", 1)];
  if (options) {
    p.async = mc::choose(2, "async", 1);
    p.threads = mc::choose(2, "threads", 1) * 2;
  }
  p.taken = mc::choose(2, "taken", 1);
  static const int sizes[] = {600, 0, 300, 960, 1100, 2100, 350};
  for (int i = 0; i < maxRecs; ++i) {
    if (mc::choose(2, "stop", 1)) {
      break;
    }
    const int size = sizes[mc::choose(7, "size", 1)];
    p.items.push_back({size, mc::choose(2, "batch", 1) == 1});
  }
  return p;
}

void bodyPlain(int maxRecs) {
  const string& scratch = cleanScratch();
  Plan p = choosePlan(maxRecs, true);
  const int files = 1 + mc::choose(2, "second", 2);
  const string dir = scratch + "/w", kept = scratch + "/kept";
  mkdir(dir.c_str(), 0700);
  mkdir(kept.c_str(), 0700);
  Recordable::resetNewInstanceIds();
  scheduled([&]() {
    Dev a;
    RecordFileWriter w;
    w.addRecordable(&a);
    w.setCompressionThreadPoolSize(size_t(p.threads));
    for (int f = 0; f < files; ++f) {
      clearDir(kept);
      Log log;
      log.keep = p.taken ? kept : "";
      Made m;
      const string base = "f" + S(f) + ".vrs";
      produce(p, w, a, dir + "/" + base, log, m);
      mc::check(m.status == 0, "status", S(m.status));
      verify(p, dir, base, log, m, true);
    }
    if (mc::choose(2, "thenPlain", 1)) {
      // a file without a handler has no announcement
      mc::check(w.createFileAsync(dir + "/plain.vrs") == 0, "plain-create");
      a.create(10, Type::DATA, 1, payload(20, 1));
      mc::check(w.waitForFileClosed() == 0, "plain-status");
      Content c = readFile(dir + "/plain.vrs");
      mc::check(c.status == 0 && c.readErrors == 0 && c.hasIndex, "plain-read");
    }
  });
  mc::traceValidated();
}

// Creating a file that can't be, or while another one is being written, changes nothing to those announced.
void bodyRefused() {
  const string& scratch = cleanScratch();
  const string dir = scratch + "/w";
  mkdir(dir.c_str(), 0700);
  const int when = mc::choose(3, "when");
  const size_t otherMB = size_t(mc::choose(4, "otherMB"));
  const int recs = mc::choose(4, "recs");
  const int at = mc::choose(recs + 1, "at");
  Plan p;
  Recordable::resetNewInstanceIds();
  scheduled([&]() {
    Dev a;
    Log log, other, third;
    Made m;
    RecordFileWriter w;
    w.addRecordable(&a);
    a.autoTs = 9;
    if (when == 0) { // a file that can't be created, then one without handler
      mc::check(w.createChunkedFile(scratch + "/missing/f.vrs", otherMB, make_unique<Handler>(other)) != 0, "created");
      mc::check(w.createFileAsync(dir + "/plain.vrs") == 0, "plain-create");
      for (int i = 0; i < recs; ++i) {
        a.create(10 + i, Type::DATA, 1, payload(600, a.nextTag(), kNoise));
      }
      mc::check(w.waitForFileClosed() == 0, "plain-status");
      if (!other.calls.empty()) {
        mc::fail("announced-to-another", str(other));
      }
      mc::check(readFile(dir + "/plain.vrs").status == 0, "plain-read");
      return;
    }
    mc::check(w.createChunkedFile(dir + "/f.vrs", 1, make_unique<Handler>(log)) == 0, "create");
    for (int i = 0; i <= recs; ++i) {
      if (i == at) {
        const int st = when == 1 ? w.createChunkedFile(dir + "/other.vrs", otherMB, make_unique<Handler>(other)) : w.createFileAsync(dir + "/other.vrs");
        mc::check(st != 0, "created-while-writing");
      }
      if (i < recs) {
        a.create(10 + i, Type::DATA, 1, payload(600, a.nextTag(), kNoise));
        w.writeRecordsAsync(100);
        this_thread::sleep_for(chrono::seconds(3));
      }
    }
    m.status = w.waitForFileClosed();
    m.recs = a.made;
    mc::check(m.status == 0, "status");
    if (!other.calls.empty()) {
      mc::fail("announced-to-another", str(other));
    }
    verify(p, dir, "f.vrs", log, m, true);
  });
  mc::traceValidated();
}

// Any operation fails: what was announced is final all the same, and announced once; and when the
// recording says that all is well, all was announced.
void bodyFault(int maxRecs) {
  const string& scratch = cleanScratch();
  Plan p = choosePlan(maxRecs, false);
  p.taken = 0;
  const string dir = scratch + "/w";
  uint64_t total = 1;
  static const char* kinds[] = {"failed once", "failed, and all those after", "wrote half, once"};
  for (int kind = 0; kind < 3; ++kind) {
    for (uint64_t k = 0; k <= total; ++k) {
      if (k == total && (kind > 0 || total > 1)) {
        break;
      }
      mkdir(dir.c_str(), 0700);
      clearDir(dir);
      const bool counting = kind == 0 && total == 1 && k == 0;
      uint64_t n = 0;
      bool hit = false;
      string which;
      fsx::begin(false, [&](const fsx::Op& op) {
        fsx::Fault f;
        if (counting) {
          return f;
        }
        const bool now = n++ == k - (kind == 0 ? 1 : 0);
        if (now || (hit && kind == 1)) {
          if (now) {
            which = op.str();
            if (kind == 2 && op.kind != fsx::kWrite) {
              return f;
            }
          }
          hit = true;
          f.fail = true;
          f.err = ENOSPC;
          f.partial = kind == 2 ? int64_t(op.size / 2) : -1;
        }
        return f;
      });
      Recordable::resetNewInstanceIds();
      Log log;
      Made m;
      scheduled([&]() {
        Dev a;
        RecordFileWriter w;
        w.addRecordable(&a);
        produce(p, w, a, dir + "/f.vrs", log, m);
      });
      fsx::end();
      if (counting) {
        mc::check(m.status == 0, "status");
        total = fsx::operations() + 1;
      }
      mc::count("failures tried");
      try {
        if (m.create == 0) {
          verify(p, dir, "f.vrs", log, m, m.status == 0, false);
        }
      } catch (mc::ViolationException& e) {
        mc::fail(e.v.key, string(kinds[kind]) + ": " + which + "\nstatus " + S(m.status) + "\n" + e.v.detail);
      }
    }
  }
  mc::traceValidated();
}

} // namespace

int main(int argc, char** argv) {
  bool deep = false;
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
  }
  mc::add({"recordings", [=]() { bodyPlain(deep ? 6 : 5); }, deep ? 5 : 4});
  mc::add({"refused", bodyRefused, 0});
  mc::add({"failures", [=]() { bodyFault(deep ? 4 : 3); }, deep ? 4 : 2});
  return mc::main(argc, argv, "C25");
}
