// C21: replacing a file is all or nothing: AtomicDiskFile, compressed files, and the details cache,
// alone, by two writers, and as a reader of remote files uses it.
#include "vrsutil.h"

#include <sys/stat.h>

#include <vrs/FileCache.h>
#include <vrs/FileDetailsCache.h>
#include <vrs/FileHandlerFactory.h>

#include "fsx.h"
#include "mcsched.h"

using namespace std;
using namespace vu;

namespace {

const char* kTarget = "/data";

// What a file says: a name for each version of its content.
enum Kind { kAtomic, kAtomicDestructor, kAtomicParts, kZstd, kDetails, kKinds };
const char* kKindNames[] = {"closed", "destroyed", "parts", "zstd", "details"};

struct Details {
  set<StreamId> ids;
  map<string, string> tags;
  map<StreamId, StreamTags> streamTags;
  vector<IndexRecord::RecordInfo> index;
  bool hasIndex = false;
  bool operator==(const Details& o) const {
    if (!(ids == o.ids && tags == o.tags && hasIndex == o.hasIndex && index.size() == o.index.size())) {
      return false;
    }
    for (size_t i = 0; i < index.size(); ++i) {
      auto &a = index[i], &b = o.index[i];
      if (a.timestamp != b.timestamp || a.fileOffset != b.fileOffset || a.recordType != b.recordType || a.streamId != b.streamId) {
        return false;
      }
    }
    for (auto& t : streamTags) {
      auto it = o.streamTags.find(t.first);
      if (it == o.streamTags.end() || it->second.user != t.second.user || it->second.vrs != t.second.vrs) {
        return false;
      }
    }
    return streamTags.size() == o.streamTags.size();
  }
};

Details details(int version, int records) {
  Details d;
  for (int i = 0; i < version; ++i) {
    const StreamId id{RecordableTypeId::UnitTest1, uint16_t(i + 1)};
    d.ids.insert(id);
    d.streamTags[id].user["name"] = "of version " + S(version);
    d.streamTags[id].vrs["format"] = string(size_t(30 * version), char('a' + i));
    d.streamTags[id].vrs[Recordable::getSerialNumberTagName()] = "serial " + S(i); // (or reading makes one)
    for (int r = 0; r < records; ++r) {
      d.index.emplace_back(r * 0.37 + i + version, 1000 + version * 17 + r * 131, id, r % 3 == 0 ? Type::CONFIGURATION : Type::DATA);
    }
  }
  d.tags["version"] = S(version);
  d.hasIndex = version != 2;
  return d;
}

vector<uint8_t> bytesOf(int version, size_t size) {
  return payload(size + size_t(version - 1), uint32_t(version * 1001), kNoise); // (the first one may be empty)
}

struct Case {
  Kind kind{};
  size_t size = 0; // bytes, or records
};

// Write a version; returns the status its writer gets.
int writeVersion(const Case& c, const string& path, int version) {
  const vector<uint8_t> data = bytesOf(version, c.size);
  int st = 0;
  switch (c.kind) {
    case kZstd:
      return DiskFile::writeZstdFile(path, data.data(), data.size());
    case kDetails: {
      const Details d = details(version, int(c.size));
      return FileDetailsCache::write(path, d.ids, d.tags, d.streamTags, d.index, d.hasIndex);
    }
    default: {
      AtomicDiskFile f;
      if ((st = f.create(path)) != 0) {
        return st;
      }
      if (c.kind == kAtomicParts) {
        // a header, the rest, then the header again
        const size_t head = std::min<size_t>(data.size(), 8);
        const vector<uint8_t> blank(head, 0);
        if ((st = f.write(blank.data(), head)) != 0 || (st = f.write(data.data() + head, data.size() - head)) != 0 || (st = f.setPos(0)) != 0 || (st = f.overwrite(data.data(), head)) != 0) {
          return st; // and no more of it
        }
      } else if ((st = f.write(data.data(), data.size())) != 0) {
        return st;
      }
      return c.kind == kAtomicDestructor ? 0 : f.close();
    }
  }
}

// 0: absent, a version, or -1 for anything else
int versionAt(const Case& c, const string& path) {
  if (access(path.c_str(), F_OK) != 0) {
    return 0;
  }
  if (c.kind == kDetails) {
    Details d;
    if (FileDetailsCache::read(path, d.ids, d.tags, d.streamTags, d.index, d.hasIndex) != 0) {
      return -1;
    }
    for (int v = 1; v <= 3; ++v) {
      if (d == details(v, int(c.size))) {
        return v;
      }
    }
    return -1;
  }
  vector<char> got;
  if (c.kind == kZstd) {
    if (DiskFile::readZstdFile(path, got) != 0) {
      return -1;
    }
    vector<uint8_t> same(got.size());
    if (DiskFile::readZstdFile(path, same.data(), same.size()) != 0 || !std::equal(same.begin(), same.end(), (const uint8_t*)got.data())) {
      return -1;
    }
  } else {
    vector<uint8_t> v;
    slurp(path, v);
    got.assign(v.begin(), v.end());
  }
  for (int v = 1; v <= 3; ++v) {
    const auto b = bytesOf(v, c.size);
    if (got.size() == b.size() && std::equal(b.begin(), b.end(), (const uint8_t*)got.data())) {
      return v;
    }
  }
  return -1;
}

Case chooseCase() {
  Case c;
  c.kind = Kind(mc::choose(kKinds, "kind"));
  const vector<size_t> sizes = c.kind == kDetails ? vector<size_t>{3, 0, 400} : c.kind == kZstd ? vector<size_t>{100, 1, 9000} : vector<size_t>{100, 0, 4095, 9000};
  c.size = mc::pick(sizes, "size");
  if (mc::noting()) {
    mc::note(string(kKindNames[c.kind]) + " " + to_string(c.size));
  }
  return c;
}

string opsStr(const vector<fsx::Op>& ops) {
  string s;
  for (auto& op : ops) {
    s += "  " + op.str() + "\n";
  }
  return s;
}

// The process dies at any point of replacing version 1 (or nothing) by version 2.
void crashBody() {
  const string& scratch = cleanScratch();
  const Case c = chooseCase();
  const bool before = mc::choose(2, "before") == 0;
  const string dir = scratch + "/w", cut = scratch + "/c";
  mkdir(dir.c_str(), 0700);
  if (before) {
    mc::check(writeVersion(c, dir + kTarget, 1) == 0, "write");
  }
  fsx::Images images = fsx::snapshot(dir);
  fsx::setBuffer(mc::choose(2, "buffer") ? 64 : -1);
  fsx::begin(true);
  const int st = writeVersion(c, dir + kTarget, 2);
  fsx::end();
  fsx::setBuffer(-1);
  mc::check(st == 0 && versionAt(c, dir + kTarget) == 2, "write-status", to_string(st));
  const vector<fsx::Op> ops = fsx::log();
  mc::check(listDir(dir).size() == 1, "left-over-files");
  bool replaced = false;
  auto look = [&](const fsx::Op& op, int64_t n) {
    fsx::materialize(images, dir, cut);
    const int v = versionAt(c, cut + kTarget);
    if (v != 2 && v != (before ? 1 : 0)) {
      mc::fail("partial-after-crash", op.str() + " at " + to_string(n) + ": " + to_string(v) + "\n" + opsStr(ops));
    }
    if (replaced && v != 2) {
      mc::fail("previous-version-again", op.str());
    }
    replaced = v == 2;
    // writing again works
    mc::check(writeVersion(c, cut + kTarget, 3) == 0 && versionAt(c, cut + kTarget) == 3, "write-after-crash");
    mc::transition();
    mc::state(mc::hashInt(uint64_t(n + 1), mc::hashInt(uint64_t(op.pos), mc::hashInt(uint64_t(op.kind), mc::hashInt(c.size, uint64_t(c.kind))))));
  };
  for (auto& op : ops) {
    if (op.kind == fsx::kWrite) {
      for (int64_t n : fsx::cutPoints(op.data.size(), mc::thorough() ? 100 : 20, 3)) {
        fsx::Images saved = images;
        fsx::apply(images, op, n);
        look(op, n);
        images.swap(saved);
      }
    }
    fsx::apply(images, op);
    look(op, -1);
  }
  mc::check(replaced, "not-replaced");
  mc::traceValidated();
}

// an operation, without the random part of the names of temporary files
string masked(string s) {
  for (size_t p = 0; (p = s.find('~', p)) != string::npos; ++p) {
    for (size_t i = p + 1; i < s.size() && isalnum((unsigned char)s[i]); ++i) {
      s[i] = '.';
    }
  }
  return s;
}

// Any operation fails.
void faultBody() {
  const string& scratch = cleanScratch();
  const Case c = chooseCase();
  const bool before = mc::choose(2, "before") == 0;
  const int buffer = mc::choose(2, "buffer") ? 64 : -1;
  const string path = scratch + kTarget;
  fsx::setBuffer(buffer);
  fsx::begin(false);
  writeVersion(c, path, 1);
  fsx::end();
  const uint64_t total = fsx::operations();
  for (int kind = 0; kind < 4; ++kind) {
    for (uint64_t k = 0; k < total; ++k) {
      cleanScratch();
      if (before) {
        mc::check(writeVersion(c, path, 1) == 0, "write");
      }
      uint64_t n = 0;
      bool hit = false, renameFailed = false;
      string which;
      fsx::begin(false, [&](const fsx::Op& op) {
        fsx::Fault f;
        const bool now = n++ == k;
        if (now && kind >= 2 && op.kind != fsx::kWrite) {
          return f;
        }
        if (now || (hit && (kind & 1))) {
          if (now) {
            which = op.str();
            if (kind >= 2) {
              f.partial = int64_t(op.size / 2);
            }
          }
          hit = true;
          f.fail = true;
          f.err = kind >= 2 ? ENOSPC : EIO;
          renameFailed |= op.kind == fsx::kRename;
        }
        return f;
      });
      const int st = writeVersion(c, path, 2);
      fsx::end();
      if (!hit) {
        continue;
      }
      const int v = versionAt(c, path);
      const bool ok = v == 2 || (st != 0 && v == (before ? 1 : 0)) || (renameFailed && v == (before ? 1 : 0)) || (renameFailed && v == 0);
      // a file that reports nothing when it is destroyed may keep the previous version
      const bool silent = c.kind == kAtomicDestructor && v == (before ? 1 : 0);
      if (!ok && !silent) {
        mc::fail(v < 0 ? "partial-after-failure" : "failure-passed-over", string(kKindNames[c.kind]) + ": " + which + " fails (" + to_string(kind) + "): status " + to_string(st) + ", version " + to_string(v) + " instead of " + to_string(before ? 1 : 0) + " or 2");
      }
      if (st == 0 && c.kind != kAtomicDestructor && v != 2) {
        mc::fail("failure-passed-over", string(kKindNames[c.kind]) + ": " + which + ": version " + to_string(v));
      }
      const int again = writeVersion(c, path, 3);
      if (again != 0 || versionAt(c, path) != 3) {
        mc::fail("write-after-failure", which + " (" + to_string(kind) + "): " + to_string(again) + " " + to_string(versionAt(c, path)));
      }
      mc::transition();
      mc::state(mc::hashStr(masked(which), mc::hashInt(uint64_t(kind * 10 + v), uint64_t(c.kind))));
    }
  }
  fsx::setBuffer(-1);
  mc::traceValidated();
}

// Two writers of the same file, their steps in every order; each may give up.
void twoBody() {
  const string& scratch = cleanScratch();
  const string path = scratch + kTarget;
  struct Writer {
    unique_ptr<AtomicDiskFile> f;
    int step = 0;
    int version;
    vector<uint8_t> data;
    int end = 0; // 0: closed, 1: destroyed, 2: aborted
  } w[2];
  int seen = 0;
  const Case c{kAtomic, 300};
  if (mc::choose(2, "before") == 0) {
    writeVersion(c, path, 1);
    seen = 1;
  }
  for (int i = 0; i < 2; ++i) {
    w[i].version = 2 + i;
    w[i].data = bytesOf(w[i].version, c.size);
    w[i].end = mc::choose(3, "end");
  }
  while (w[0].step < 4 || w[1].step < 4) {
    const int i = w[0].step == 4 ? 1 : w[1].step == 4 ? 0 : mc::choose(2, "writer");
    Writer& x = w[i];
    switch (x.step++) {
      case 0:
        x.f = make_unique<AtomicDiskFile>();
        mc::check(x.f->create(path) == 0, "create");
        break;
      case 1:
        mc::check(x.f->write(x.data.data(), 100) == 0, "write");
        break;
      case 2:
        mc::check(x.f->write(x.data.data() + 100, x.data.size() - 100) == 0, "write");
        break;
      case 3:
        if (x.end == 0) {
          mc::check(x.f->close() == 0, "close");
          mc::check(x.f->close() == 0, "close-again");
        } else if (x.end == 2) {
          x.f->abort();
        }
        x.f.reset();
        seen = x.end == 2 ? seen : x.version;
        break;
    }
    if (versionAt(c, path) != seen) {
      mc::fail("writers-mixed", "version " + to_string(versionAt(c, path)) + " instead of " + to_string(seen));
    }
    mc::transition();
  }
  const size_t left = listDir(scratch).size();
  mc::check(left == (seen ? 1 : 0), "left-over-files", to_string(left));
  mc::traceValidated();
  mc::state(mc::hashInt(uint64_t(w[0].end * 3 + w[1].end), uint64_t(seen)));
}

// ---------- the details cache of remote files ----------

struct Remote : public DiskFile {
  unique_ptr<FileHandler> makeNew() const override {
    return make_unique<Remote>();
  }
  const string& getFileHandlerName() const override {
    static const string sName = "remote";
    return sName;
  }
  bool isRemoteFileSystem() const override {
    return true;
  }
  int openSpec(const FileSpec& spec) override {
    FileSpec local = spec;
    local.fileHandlerName.clear();
    return DiskFile::openSpec(local);
  }
};

string remoteSpec(const string& path, bool sort) {
  return "{\"storage\":\"remote\",\"chunks\":[\"" + path + "\"]" + (sort ? ",\"sort_records\":\"1\"" : "") + "}";
}

struct Quiet : public Dev {
  using Dev::Dev;
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
};

// Unsorted records of three streams, one of them without records
void makeRemote(const string& path, bool truncateIt, int records) {
  Recordable::resetNewInstanceIds();
  RecordFileWriter w;
  vector<unique_ptr<Quiet>> devs;
  for (int i = 0; i < 3; ++i) {
    devs.push_back(make_unique<Quiet>(i == 2 ? RecordableTypeId::UnitTest2 : RecordableTypeId::UnitTest1, i == 1 ? "a/flavor" : ""));
    devs.back()->setTag("number", S(i));
    w.addRecordable(devs.back().get());
  }
  w.setTag("file", "tag");
  mc::check(w.createFileAsync("{\"storage\":\"diskfile\",\"chunks\":[\"" + path + "\"],\"sort_records\":\"0\"}") == 0, "create");
  for (int i = 0; i < records; ++i) {
    devs[size_t(i % 2)]->create(100 - i * 3 + (i % 4) * 5, i % 3 ? Type::DATA : Type::STATE, 1, payload(size_t(20 + i), uint32_t(i)));
    w.writeRecordsAsync(1e9);
  }
  // two records of a stream with the same time, and not in the order of their types
  devs[1]->create(300, Type::DATA, 1, payload(9, 77));
  w.writeRecordsAsync(1e9);
  devs[1]->create(300, Type::CONFIGURATION, 1, payload(10, 78));
  w.writeRecordsAsync(1e9);
  if (truncateIt) {
    devs[0]->create(301, Type::DATA, 1, payload(10, 79));
    w.writeRecordsAsync(1e9);
  }
  mc::check(w.waitForFileClosed() == 0, "write");
  if (truncateIt) {
    vector<uint8_t> v;
    slurp(path, v);
    const Raw raw = walk({path});
    v.resize(size_t(raw.recs.back().pos) + 5); // the last record, and the index, are gone
    spit(path, v);
  }
}

void controlled(const function<void()>& f) {
  sched::Config cfg;
  cfg.freeSwitchAtBlock = false;
  cfg.timeoutCost = 100;
  cfg.switchCost = 1;
  cfg.atomicsArePoints = false;
  sched::run(f, cfg);
}

Content openRemote(const string& path, bool sort) {
  Content c;
  controlled([&]() {
    RecordFileReader reader;
    c.status = reader.openFile(remoteSpec(path, sort));
    if (c.status == 0) {
      readIndexed(reader, c);
    }
    reader.closeFile();
  });
  return c;
}

struct Remoted {
  string dir, path, cache;
  Content plain, sorted; // without a cache
  vector<string> files() const {
    vector<string> v;
    for (auto& f : listDir(cache)) {
      v.push_back(cache + "/" + f);
    }
    return v;
  }
};
Remoted setup(bool noIndex, int records) {
  static bool registered = false;
  if (!registered) {
    FileHandlerFactory::getInstance().registerFileHandler(make_unique<Remote>());
    registered = true;
  }
  Remoted r;
  r.dir = cleanScratch();
  r.path = r.dir + "/remote.vrs";
  r.cache = r.dir + "/.app";
  FileCache::disableFileCache();
  makeRemote(r.path, noIndex, records - 2);
  r.plain = openRemote(r.path, false);
  r.sorted = openRemote(r.path, true);
  mc::check(r.plain.status == 0 && r.plain.recs.size() == size_t(records) && r.plain.hasIndex == !noIndex && r.plain.tags.size() > 0, "remote-file", to_string(r.plain.status) + " " + to_string(r.plain.recs.size()));
  mc::check(!(r.plain.recs == r.sorted.recs), "harness-sorted");
  mc::check(FileCache::makeFileCache("app", r.dir) == 0, "make-cache");
  return r;
}
void same(const Content& c, const Content& expected, const char* key, const function<string()>& what) {
  if (!c.sameAs(expected) || c.hasIndex != expected.hasIndex) {
    mc::fail(key, what() + "\nstatus " + to_string(c.status) + " index " + to_string(c.hasIndex) + " instead of " + to_string(expected.hasIndex) + ", tags " + to_string(c.tags.size()) + "/" + to_string(expected.tags.size()) + ", streams " + to_string(c.streamTags.size()) + "/" + to_string(expected.streamTags.size()) + "\n" + diff(expected.recs, c.recs));
  }
}

// Opening once and again, sorted or not, in every order of the opening and saving threads.
void reopenBody() {
  const bool noIndex = mc::choose(2, "index") == 1;
  Remoted r = setup(noIndex, 6);
  set<bool> sorts;
  for (int i = 0; i < 3; ++i) {
    const bool sort = mc::choose(2, "sort") == 1;
    if (i == 0) {
      // the operations on the cache are scheduling points
      fsx::begin(false, [&](const fsx::Op& op) {
        if (sched::active() && op.path.compare(0, r.cache.size(), r.cache) == 0) {
          sched::point("cache");
        }
        return fsx::Fault();
      });
    }
    const Content c = openRemote(r.path, sort);
    if (i == 0) {
      fsx::end();
    }
    same(c, sort ? r.sorted : r.plain, i ? "cached-content" : "content", [&]() { return "opened " + to_string(i + 1) + " times, sorted: " + to_string(sort); });
    sorts.insert(sort); // (the copy of the file's header depends on the way it is opened)
    mc::check(r.files().size() == 1 + sorts.size(), "cache-files", to_string(r.files().size()));
    mc::transition();
  }
  // a file that has grown is not the one cached
  if (!noIndex) {
    vector<uint8_t> v;
    slurp(r.path, v);
    makeRemote(r.path, false, 5);
    FileCache::disableFileCache();
    const Content grown = openRemote(r.path, false);
    mc::check(grown.recs.size() == 7, "grown");
    FileCache::makeFileCache("app", r.dir);
    same(openRemote(r.path, false), grown, "stale-cache", []() { return string("grown"); });
  }
  FileCache::disableFileCache();
  mc::traceValidated();
  mc::state(mc::hashInt(uint64_t(noIndex), sched::steps()));
}

// Caches cut short, too long, or of another kind
void damageBody() {
  const bool noIndex = mc::choose(2, "index") == 1;
  Remoted r = setup(noIndex, 6);
  openRemote(r.path, false);
  const vector<string> files = r.files();
  mc::check(files.size() == 2, "cache-files", to_string(files.size()));
  const size_t which = size_t(mc::choose(2, "which"));
  vector<uint8_t> good;
  slurp(files[which], good);
  int fresh = 0;
  auto look = [&](const vector<uint8_t>& v, const function<string()>& what) {
    spit(files[which], v);
    const bool sort = (fresh++ & 1) != 0 && which == 0;
    same(openRemote(r.path, sort), sort ? r.sorted : r.plain, "damaged-cache-believed", what);
    mc::transition();
    mc::state(mc::hashBytes(v.data(), v.size()));
    // and what was saved again is right
    if (fresh % 16 == 0) {
      same(openRemote(r.path, false), r.plain, "cache-saved-again", what);
    }
  };
  for (size_t n = 0; n < good.size(); ++n) {
    look(vector<uint8_t>(good.begin(), good.begin() + int64_t(n)), [&]() { return "cut at " + to_string(n) + " of " + to_string(good.size()); });
  }
  for (size_t n : {size_t(1), size_t(3), size_t(4), size_t(100)}) {
    for (uint8_t b : {0, 0xff, 0x28}) {
      auto v = good;
      v.insert(v.end(), n, b);
      look(v, [&]() { return to_string(n) + " more bytes"; });
    }
  }
  if (which == 0) {
    // the details of another file, incomplete
    for (int version = 1; version <= 3; ++version) {
      const Details d = details(version, 9);
      FileDetailsCache::write(r.dir + "/other", d.ids, d.tags, d.streamTags, d.index, d.hasIndex);
      vector<uint8_t> foreign;
      slurp(r.dir + "/other", foreign);
      for (size_t n = 0; n < foreign.size(); n += n < foreign.size() - 8 ? 7 : 1) {
        look(vector<uint8_t>(foreign.begin(), foreign.begin() + int64_t(n)), [&]() { return "another one, cut at " + to_string(n) + " of " + to_string(foreign.size()); });
        look([&]() {
          auto v = foreign;
          v[n] ^= 0x55;
          v.resize(v.size() - 1);
          return v;
        }(), [&]() { return "another one, cut, and damaged at " + to_string(n); });
        // cut after its description, with a header that agrees
      }
      for (size_t k = 20; k < foreign.size(); k += 3) {
        // inside of its index, the size of the file unchanged
        auto v = foreign;
        for (size_t j = k; j < v.size(); ++j) {
          v[j] = 0;
        }
        look(v, [&]() { return "another one, blank from " + to_string(k); });
      }
    }
  }
  vector<uint8_t> vrs;
  slurp(r.path, vrs);
  look(vrs, []() { return string("a VRS file"); });
  look(vector<uint8_t>(good.size(), 'x'), []() { return string("text"); });
  look(vector<uint8_t>(good.size(), 0), []() { return string("zeros"); });
  vector<uint8_t> other;
  slurp(files[1 - which], other);
  look(other, []() { return string("the other cache file"); });
  FileCache::disableFileCache();
  mc::traceValidated();
}

// The process dies, or an operation fails, while the cache is saved, or read
void cacheCrashBody() {
  const bool noIndex = mc::choose(2, "index") == 1;
  Remoted r = setup(noIndex, 6);
  const string cut = r.dir + "/cut";
  fsx::Images images;
  fsx::begin(true);
  same(openRemote(r.path, false), r.plain, "content", []() { return string("first"); });
  fsx::end();
  const vector<fsx::Op> ops = fsx::log();
  auto look = [&](const fsx::Op& op, int64_t n) {
    clearDir(r.cache);
    for (auto& im : images) {
      if (im.first.compare(0, r.cache.size(), r.cache) == 0) {
        spit(im.first, im.second);
      }
    }
    same(openRemote(r.path, false), r.plain, "content-after-crash", [&]() { return op.str() + " at " + to_string(n); });
    mc::transition();
  };
  for (auto& op : ops) {
    if (op.path.compare(0, r.cache.size(), r.cache) != 0) {
      continue;
    }
    if (op.kind == fsx::kWrite) {
      for (int64_t n : fsx::cutPoints(op.data.size(), 10, 3)) {
        fsx::Images saved = images;
        fsx::apply(images, op, n);
        look(op, n);
        images.swap(saved);
      }
    }
    fsx::apply(images, op);
    look(op, -1);
  }
  FileCache::disableFileCache();
  mc::traceValidated();
}

void cacheFaultBody() {
  const bool noIndex = mc::choose(2, "index") == 1;
  const bool cached = mc::choose(2, "cached") == 1;
  const int kind = mc::choose(3, "kind"); // once, from then on, partial or early end
  Remoted r = setup(noIndex, 6);
  for (uint64_t k = 0;; ++k) {
    clearDir(r.cache);
    if (cached) {
      openRemote(r.path, false);
    }
    uint64_t n = 0;
    bool hit = false;
    string which;
    fsx::begin(false, [&](const fsx::Op& op) {
      fsx::Fault f;
      if (op.path.compare(0, r.cache.size(), r.cache) != 0) {
        return f;
      }
      const bool now = n++ == k;
      if (now || (hit && kind == 1)) {
        if (now) {
          which = op.str();
        }
        hit = true;
        if (kind == 2 && op.kind == fsx::kRead) {
          f.eof = true;
          return f;
        }
        f.fail = true;
        if (kind == 2 && op.kind == fsx::kWrite) {
          f.err = ENOSPC;
          f.partial = int64_t(op.size / 2);
        }
      }
      return f;
    });
    const Content c = openRemote(r.path, false);
    fsx::end();
    if (!hit) {
      break;
    }
    same(c, r.plain, "content-after-failure", [&]() { return which; });
    same(openRemote(r.path, false), r.plain, "content-after-failure-again", [&]() { return which; });
    mc::transition();
    mc::state(mc::hashStr(masked(which)));
  }
  FileCache::disableFileCache();
  mc::traceValidated();
}

} // namespace

int main(int argc, char** argv) {
  bool deep = false;
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
  }
  mc::add({"crash", crashBody, 0});
  mc::add({"fault", faultBody, 0});
  mc::add({"two-writers", twoBody, 0});
  mc::add({"reopen", reopenBody, deep ? 3 : 2});
  mc::add({"damage", damageBody, 0});
  mc::add({"cache-crash", cacheCrashBody, 0});
  mc::add({"cache-fault", cacheFaultBody, 0});
  return mc::main(argc, argv, "C21");
}
