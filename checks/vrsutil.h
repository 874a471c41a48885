// Helpers shared by the harnesses: recordables that remember what they created, and a reader that
// reads everything back, through the library's public API only.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <vrs/DiskFile.h>
#include <vrs/ErrorCode.h>
#include <vrs/IndexRecord.h>
#include <vrs/RecordFileReader.h>
#include <vrs/RecordFileWriter.h>
#include <vrs/RecordReaders.h>
#include <vrs/Recordable.h>
#include <vrs/StreamPlayer.h>

#include "mc.h"

namespace vu {

using namespace vrs;
using std::deque;
using std::list;
using std::make_unique;
using std::map;
using std::pair;
using std::set;
using std::string;
using std::to_string;
using std::unique_ptr;
using std::vector;
using Type = Record::Type;

inline string S(int64_t v) {
  return to_string(v);
}
inline string F(double v) {
  char b[40];
  snprintf(b, sizeof(b), "%.17g", v);
  return b;
}

// ---------- scratch files ----------
inline void clearDir(const string& dir) {
  DIR* d = opendir(dir.c_str());
  if (d == nullptr) {
    return;
  }
  while (dirent* e = readdir(d)) {
    if (e->d_name[0] == '.' && (e->d_name[1] == 0 || (e->d_name[1] == '.' && e->d_name[2] == 0))) {
      continue;
    }
    string p = dir + "/" + e->d_name;
    if (unlink(p.c_str()) != 0 && errno == EISDIR) {
      clearDir(p);
      rmdir(p.c_str());
    }
  }
  closedir(d);
}
inline vector<string> listDir(const string& dir) {
  vector<string> v;
  DIR* d = opendir(dir.c_str());
  if (d != nullptr) {
    while (dirent* e = readdir(d)) {
      if (strcmp(e->d_name, ".") != 0 && strcmp(e->d_name, "..") != 0) {
        v.push_back(e->d_name);
      }
    }
    closedir(d);
  }
  std::sort(v.begin(), v.end());
  return v;
}
inline const string& cleanScratch() {
  clearDir(mc::scratch());
  return mc::scratch();
}
inline bool slurp(const string& path, vector<uint8_t>& out) {
  int fd = open(path.c_str(), O_RDONLY);
  if (fd < 0) {
    return false;
  }
  struct stat st{};
  fstat(fd, &st);
  out.resize(size_t(st.st_size));
  size_t n = 0;
  while (n < out.size()) {
    ssize_t r = read(fd, out.data() + n, out.size() - n);
    if (r <= 0) {
      break;
    }
    n += size_t(r);
  }
  out.resize(n);
  close(fd);
  return true;
}
inline void spit(const string& path, const void* data, size_t n) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  mc::check(fd >= 0, "harness-spit", path);
  const char* p = static_cast<const char*>(data);
  while (n > 0) {
    ssize_t w = write(fd, p, n);
    mc::check(w > 0, "harness-spit", path);
    p += w;
    n -= size_t(w);
  }
  close(fd);
}
inline void spit(const string& path, const vector<uint8_t>& v) {
  spit(path, v.data(), v.size());
}

// ---------- payloads ----------
enum Fill { kZeros, kPattern, kNoise };
inline vector<uint8_t> payload(size_t size, uint32_t tag, Fill fill = kPattern) {
  vector<uint8_t> v(size);
  uint64_t x = tag * 0x9E3779B97F4A7C15ull + 1;
  for (size_t i = 0; i < size; ++i) {
    if (fill == kNoise) {
      x ^= x << 13;
      x ^= x >> 7;
      x ^= x << 17;
      v[i] = uint8_t(x >> 24);
    } else {
      v[i] = fill == kZeros ? 0 : uint8_t((tag * 31 + i / 7) & 0xff);
    }
  }
  for (size_t i = 0; i < 4 && i < size; ++i) {
    v[i] = uint8_t(tag >> (8 * i));
  }
  return v;
}

// ---------- records ----------
struct Rec {
  StreamId id;
  Type type{};
  double ts{};
  uint32_t fv{};
  vector<uint8_t> data;
  uint64_t order{}; // creation order within the stream
  int64_t offset{}; // file offset, when read
  int readStatus{}; // when read
  bool operator==(const Rec& r) const {
    return id == r.id && type == r.type && ts == r.ts && fv == r.fv && data == r.data;
  }
  string str() const {
    return id.getNumericName() + " " + toString(type) + " t=" + F(ts) + " v" + S(fv) + " " + S(int64_t(data.size())) + "B#" +
        (data.size() >= 4 ? S(data[0] | data[1] << 8 | data[2] << 16 | data[3] << 24) : string("-"));
  }
};
inline string str(const vector<Rec>& v) {
  string s;
  for (auto& r : v) {
    s += "    " + r.str() + "\n";
  }
  return s;
}

// data written directly at the end of a record
struct TailDirect : public DirectWriteRecordData {
  explicit TailDirect(vector<uint8_t> d) : data(std::move(d)) {}
  size_t getDataSize() const override {
    return data.size();
  }
  int write(WriteFileHandler& file) const override {
    return file.write(data.data(), data.size());
  }
  vector<uint8_t> data;
};

struct Dev : public Recordable {
  explicit Dev(RecordableTypeId type = RecordableTypeId::UnitTest1, const string& flavor = {})
      : Recordable(type, flavor) {
    setCompression(CompressionPreset::None);
  }
  // config and state records: time and size of the next ones
  double autoTs = 0;
  size_t configSize = 12;
  size_t stateSize = 8;
  uint32_t tag = 0;
  vector<Rec> made;

  const Record* create(double ts, Type type, uint32_t fv, vector<uint8_t> data) {
    const Record* r = createRecord(ts, type, fv, DataSource(DataSourceChunk(data.data(), data.size())));
    made.push_back({getStreamId(), type, ts, fv, std::move(data), made.size()});
    return r;
  }
  const Record* createDirect(double ts, Type type, uint32_t fv, const vector<uint8_t>& head, unique_ptr<DirectWriteRecordData>&& direct, const vector<uint8_t>& all) {
    const Record* r = createUncompressedRecord(ts, type, fv, DataSource(DataSourceChunk(head.data(), head.size())), std::move(direct));
    made.push_back({getStreamId(), type, ts, fv, all, made.size()});
    return r;
  }
  uint32_t nextTag() {
    return (uint32_t(getStreamId().getInstanceId()) << 16) + (++tag);
  }
  const Record* createConfigurationRecord() override {
    return create(autoTs, Type::CONFIGURATION, 1, payload(configSize, nextTag()));
  }
  const Record* createStateRecord() override {
    return create(autoTs, Type::STATE, 2, payload(stateSize, nextTag()));
  }
};

// ---------- reading everything back ----------
struct Grabber : public StreamPlayer {
  vector<uint8_t> buf;
  size_t limit = 64u << 20;
  bool headerSeen = false;
  bool recordSeen = false;
  CurrentRecord last{};
  bool processRecordHeader(const CurrentRecord& r, DataReference& ref) override {
    headerSeen = true;
    last = r;
    if (r.recordSize > limit) {
      return false; // (damaged files)
    }
    buf.assign(r.recordSize, 0xEE);
    ref.useRawData(buf.data(), r.recordSize);
    return true;
  }
  void processRecord(const CurrentRecord&, uint32_t readSize) override {
    recordSeen = true;
    buf.resize(std::min<size_t>(readSize, buf.size()));
  }
};

struct Content {
  int status = 0; // of openFile
  bool hasIndex = false;
  map<string, string> tags;
  map<StreamId, StreamTags> streamTags;
  vector<Rec> recs; // in index order, TAGS records left out
  vector<Rec> tagRecs;
  int readErrors = 0;
  bool sameAs(const Content& o) const {
    return status == o.status && tags == o.tags && streamTags == o.streamTags && recs == o.recs && readErrors == o.readErrors;
  }
};

inline void readIndexed(RecordFileReader& reader, Content& c, bool data = true) {
  c.hasIndex = reader.hasIndex();
  c.tags = reader.getTags();
  for (auto& id : reader.getStreams()) {
    c.streamTags[id] = reader.getTags(id);
  }
  Grabber g;
  for (const IndexRecord::RecordInfo& info : reader.getIndex()) {
    Rec r;
    r.id = info.streamId;
    r.type = info.recordType;
    r.ts = info.timestamp;
    r.offset = info.fileOffset;
    if (data) {
      g.headerSeen = g.recordSeen = false;
      g.buf.clear();
      r.readStatus = reader.readRecord(info, &g);
      if (r.readStatus == 0) {
        if (!g.headerSeen || !g.recordSeen) {
          r.readStatus = -12345;
        } else {
          r.fv = g.last.formatVersion;
          mc::check(g.last.streamId == info.streamId && g.last.recordType == info.recordType && g.last.timestamp == info.timestamp, "header-differs-from-index", r.str());
          r.data = g.buf;
        }
      }
      if (r.readStatus != 0) {
        ++c.readErrors;
      }
    }
    (r.type == Type::TAGS ? c.tagRecs : c.recs).push_back(std::move(r));
  }
}

inline Content readFile(const string& path, bool autoFix = false, bool data = true) {
  Content c;
  RecordFileReader reader;
  c.status = reader.openFile(path, autoFix);
  if (c.status == 0) {
    readIndexed(reader, c, data);
  }
  return c;
}

inline string diff(const vector<Rec>& expected, const vector<Rec>& got) {
  return "  expected " + S(int64_t(expected.size())) + ":\n" + str(expected) + "  got " + S(int64_t(got.size())) + ":\n" + str(got);
}

// Stable sort by time, then stream, then creation.
inline void sortRecs(vector<Rec>& v) {
  std::stable_sort(v.begin(), v.end(), [](const Rec& a, const Rec& b) {
    return a.ts != b.ts ? a.ts < b.ts : (a.id != b.id ? a.id < b.id : a.order < b.order);
  });
}

// The records got must be those expected: by timestamp, and for one stream in order of creation
// (unless order is not required among equal timestamps).
inline void compareRecs(vector<Rec> expected, const vector<Rec>& got, const char* what, bool stable = true) {
  sortRecs(expected);
  if (expected.size() != got.size()) {
    mc::fail(string(what) + (expected.size() > got.size() ? "-lost" : "-extra"), diff(expected, got));
  }
  for (size_t i = 1; i < got.size(); ++i) {
    if (got[i].ts < got[i - 1].ts) {
      mc::fail(string(what) + "-not-by-time", diff(expected, got));
    }
  }
  // per stream
  map<StreamId, vector<const Rec*>> e, g;
  for (auto& r : expected) {
    e[r.id].push_back(&r);
  }
  for (auto& r : got) {
    g[r.id].push_back(&r);
  }
  for (auto& kv : e) {
    auto& gv = g[kv.first];
    if (gv.size() != kv.second.size()) {
      mc::fail(string(what) + "-stream", diff(expected, got));
    }
    if (!stable) {
      auto less = [](const Rec* a, const Rec* b) {
        return a->ts != b->ts ? a->ts < b->ts : (a->type != b->type ? a->type < b->type : a->data < b->data);
      };
      std::sort(gv.begin(), gv.end(), less);
      std::sort(kv.second.begin(), kv.second.end(), less);
    }
    for (size_t i = 0; i < gv.size(); ++i) {
      if (!(*gv[i] == *kv.second[i])) {
        mc::fail(string(what) + "-differs", "record " + S(int64_t(i)) + " of " + kv.first.getNumericName() + "\n" + diff(expected, got));
      }
    }
  }
}

// ---------- the file format, read on its own ----------
struct RawRec {
  FileFormat::RecordHeader h;
  int64_t pos;
};
struct Raw {
  FileFormat::FileHeader header;
  vector<uint8_t> bytes;
  vector<RawRec> recs; // user records in file order
  int64_t end = 0; // where the last complete record ends
  string problem;
};
// Walk the records of a file given its chunks.
inline Raw walk(const vector<string>& chunks) {
  Raw r;
  for (auto& c : chunks) {
    vector<uint8_t> b;
    if (!slurp(c, b)) {
      r.problem = "cannot read " + c;
      return r;
    }
    r.bytes.insert(r.bytes.end(), b.begin(), b.end());
  }
  if (r.bytes.size() < sizeof(r.header)) {
    r.problem = "short header";
    return r;
  }
  memcpy(&r.header, r.bytes.data(), sizeof(r.header));
  const int64_t total = int64_t(r.bytes.size());
  int64_t pos = r.header.descriptionRecordOffset;
  bool first = true, afterSplitIndex = false;
  uint32_t prev = 0;
  while (pos < total) {
    RawRec rec;
    if (pos < 0 || pos + int64_t(sizeof(rec.h)) > total) {
      r.problem = "short record header at " + to_string(pos);
      break;
    }
    memcpy(&rec.h, r.bytes.data() + pos, sizeof(rec.h));
    rec.pos = pos;
    if (rec.h.recordSize < sizeof(rec.h)) {
      r.problem = "record size " + to_string(rec.h.recordSize) + " at " + to_string(pos);
      break;
    }
    if (pos + int64_t(rec.h.recordSize) > total) {
      r.problem = "short record at " + to_string(pos);
      break;
    }
    // a split index grows after the first user record is written, which only knows its initial size
    if (!first && !afterSplitIndex && rec.h.previousRecordSize != prev) {
      r.problem = "the record at " + to_string(pos) + " says the previous one has " + to_string(rec.h.previousRecordSize) + " bytes, it has " + to_string(prev);
    }
    const bool user = rec.h.getRecordableTypeId() != RecordableTypeId::VRSIndex && rec.h.getRecordableTypeId() != RecordableTypeId::VRSDescription;
    if (user) {
      r.recs.push_back(rec);
    }
    afterSplitIndex = !user && chunks.size() > 1 && rec.h.getRecordableTypeId() == RecordableTypeId::VRSIndex;
    prev = rec.h.recordSize;
    pos += rec.h.recordSize;
    first = false;
    r.end = pos;
  }
  return r;
}
inline vector<IndexRecord::RecordInfo> indexOf(const Raw& r) {
  vector<IndexRecord::RecordInfo> v;
  for (auto& x : r.recs) {
    if (x.h.getRecordType() != Record::Type::TAGS) // the reader hides tags records
      v.emplace_back(x.h.timestamp, x.pos, x.h.getStreamId(), x.h.getRecordType());
  }
  std::sort(v.begin(), v.end());
  return v;
}
inline string str(const vector<IndexRecord::RecordInfo>& v) {
  string s;
  for (auto& r : v) {
    s += "    " + r.streamId.getNumericName() + " " + toString(r.recordType) + " t=" + F(r.timestamp) + " @" + S(r.fileOffset) + "\n";
  }
  return s;
}

inline uint64_t hashRecs(const vector<Rec>& v, uint64_t h = 77) {
  for (auto& r : v) {
    h = mc::hashInt(uint64_t(r.id.getInstanceId()) * 16 + uint64_t(r.type), h);
    h = mc::hashBytes(&r.ts, 8, h);
    h = mc::hashBytes(r.data.data(), r.data.size(), h);
  }
  return h;
}

} // namespace vu
