// Queries on the records of files, against a plain scan of the list of records.
//   C10: RecordFileReader     C11: MultiRecordFileReader, and the merge itself
#include "vrsutil.h"

#include <cmath>
#include <thread>

#include "mcsched.h"
#include <limits>

#include <vrs/MultiRecordFileReader.h>
#include <vrs/TagConventions.h>

using namespace std;
using namespace vu;

namespace {

using Info = IndexRecord::RecordInfo;
const Type kTypes[] = {Type::CONFIGURATION, Type::STATE, Type::DATA};

// A recordable that creates nothing by itself.
struct Quiet : public Dev {
  using Dev::Dev;
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
};

struct StreamDef {
  RecordableTypeId type;
  uint16_t skip; // instance numbers left out before
  string flavor;
  string serial; // tag
};
struct RecDef {
  int stream;
  Type type;
  double ts;
};

// the payload tells the file, the stream and the record
struct Written {
  vector<StreamId> ids;
  vector<string> serials;
};
Written writeFile(const string& path, const vector<StreamDef>& streams, const vector<RecDef>& recs, bool sorted, int file = 0, const map<string, string>& tags = {}) {
  Written res;
  Recordable::resetNewInstanceIds();
  vector<unique_ptr<Quiet>> devs;
  RecordFileWriter w;
  for (auto& s : streams) {
    vector<unique_ptr<Quiet>> skipped;
    for (int i = 0; i < s.skip; ++i) {
      skipped.push_back(make_unique<Quiet>(s.type));
    }
    devs.push_back(make_unique<Quiet>(s.type, s.flavor));
    Quiet& d = *devs.back();
    d.setTag("which", S(file) + "/" + S(int64_t(devs.size())));
    d.setTag("common", "yes");
    w.addRecordable(&d);
    res.ids.push_back(d.getStreamId());
    res.serials.push_back(d.getSerialNumber());
  }
  for (auto& t : tags) {
    w.setTag(t.first, t.second);
  }
  w.setTag("file", S(file));
  auto create = [&]() {
    uint32_t n = 0;
    for (auto& r : recs) {
      uint32_t tag = uint32_t(file) << 24 | uint32_t(r.stream) << 16 | n;
      devs[size_t(r.stream)]->create(r.ts, r.type, 1, payload(4 + (n % 5) * 3, tag));
      ++n;
    }
  };
  if (sorted) {
    create();
    mc::check(w.writeToFile(path) == 0, "write");
  } else {
    // in the order of creation: one batch for each record
    sched::Config cfg;
    cfg.freeSwitchAtBlock = false; // one schedule is enough
    cfg.timeoutCost = 100;
    cfg.switchCost = 100;
    cfg.maxSteps = 1000000;
    sched::run([&]() {
    mc::check(w.createFileAsync("{\"storage\":\"diskfile\",\"chunks\":[\"" + path + "\"],\"sort_records\":\"0\"}") == 0, "create");
    uint32_t n = 0;
    for (auto& r : recs) {
      devs[size_t(r.stream)]->create(r.ts, r.type, 1, payload(4 + (n % 5) * 3, uint32_t(file) << 24 | uint32_t(r.stream) << 16 | n));
      ++n;
      w.writeRecordsAsync(1e9); // collects the records at once
      this_thread::sleep_for(chrono::seconds(3)); // (virtual)
    }
    mc::check(w.waitForFileClosed() == 0, "write");
    }, cfg);
  }
  return res;
}

// What is queried: the records in order, and how a scan sees each of them.
struct Entry {
  const Info* p;
  StreamId uid;
  uint32_t size; // on disk
};
struct View {
  vector<Entry> all;
  map<StreamId, StreamTags> streams;
};

const StreamId kNone{RecordableTypeId::Undefined, 0};

const Info* nth(const View& v, const function<bool(const Entry&)>& f, size_t n) {
  for (auto& e : v.all) {
    if (f(e) && n-- == 0) {
      return e.p;
    }
  }
  return nullptr;
}

#define EXPECT(what, got, expected) \
  do { \
    auto&& g__ = (got); \
    auto&& e__ = (expected); \
    if (!(g__ == e__)) { \
      mc::fail(what, at(v)); \
    } \
    ++done; \
  } while (0)

string describe(const View& v) {
  string s;
  for (auto& e : v.all) {
    s += " [" + e.uid.getNumericName() + " " + toString(e.p->recordType) + " t=" + F(e.p->timestamp) + " @" + S(e.p->fileOffset) + "]";
  }
  return s;
}

// Every query both readers offer.
template <class R>
uint64_t queries(R& r, const View& v, const vector<double>& times, bool multi) {
  uint64_t done = 0;
  string ctx;
  auto at = [&](const View& view) { return ctx + " in" + describe(view); };
  const uint32_t n = uint32_t(v.all.size());
  vector<StreamId> ids;
  for (auto& s : v.streams) {
    ids.push_back(s.first);
  }
  vector<StreamId> asked = ids;
  asked.push_back(StreamId(RecordableTypeId::UnitTest1, 77)); // absent
  asked.push_back(StreamId(RecordableTypeId::UnitTest2, 1));
  // counts and ranks
  EXPECT("record-count", r.getRecordCount(), n);
  EXPECT("record-beyond", r.getRecord(n), (const Info*)nullptr);
  EXPECT("index-of-null", r.getRecordIndex(nullptr), n);
  Info stray{1.5, 10, StreamId(RecordableTypeId::UnitTest1, 1), Type::DATA};
  EXPECT("index-of-stray", r.getRecordIndex(&stray), n);
  map<StreamId, vector<const Info*>> perStream;
  for (uint32_t i = 0; i < n; ++i) {
    ctx = "record " + S(i);
    EXPECT("record-by-rank", r.getRecord(i), v.all[i].p);
    EXPECT("rank-of-record", r.getRecordIndex(v.all[i].p), i);
    EXPECT("record-size", r.getRecordSize(i), v.all[i].size);
    perStream[v.all[i].uid].push_back(v.all[i].p);
  }
  EXPECT("size-beyond", r.getRecordSize(n), 0u);
  set<StreamId> idSet(ids.begin(), ids.end());
  EXPECT("streams", r.getStreams(), idSet);
  for (StreamId id : asked) {
    const auto& own = perStream[id];
    ctx = "stream " + id.getNumericName();
    EXPECT("stream-count", r.getRecordCount(id), uint32_t(own.size()));
    EXPECT("stream-index", r.getIndex(id), own);
    EXPECT("stream-rank-beyond", r.getRecord(id, uint32_t(own.size())), (const Info*)nullptr);
    for (uint32_t i = 0; i < own.size(); ++i) {
      EXPECT("stream-rank", r.getRecord(id, i), own[i]);
    }
    for (Type t : kTypes) {
      vector<const Info*> typed;
      for (auto* p : own) {
        if (p->recordType == t) {
          typed.push_back(p);
        }
      }
      ctx = "stream " + id.getNumericName() + " type " + toString(t);
      EXPECT("type-count", r.getRecordCount(id, t), uint32_t(typed.size()));
      EXPECT("last-record", r.getLastRecord(id, t), typed.empty() ? nullptr : typed.back());
      // each rank after each other one: whatever was asked before
      for (uint32_t first = 0; first <= typed.size(); ++first) {
        for (uint32_t second = 0; second <= typed.size() + 1; ++second) {
          EXPECT("type-rank", r.getRecord(id, t, first), first < typed.size() ? typed[first] : nullptr);
          ctx = "stream " + id.getNumericName() + " type " + toString(t) + " rank " + S(second) + " after " + S(first);
          EXPECT("type-rank-after", r.getRecord(id, t, second), second < typed.size() ? typed[second] : nullptr);
        }
      }
      // the same, between requests for another type
      for (Type u : kTypes) {
        r.getRecord(id, u, 0);
        r.getRecord(id, u, 1);
        for (uint32_t i = uint32_t(typed.size()); i-- > 0;) {
          EXPECT("type-rank-interleaved", r.getRecord(id, t, i), typed[i]);
        }
      }
    }
    const auto& tags = v.streams.count(id) ? v.streams.at(id) : StreamTags{};
    EXPECT("stream-tags", r.getTags(id), tags);
    EXPECT("flavor", r.getFlavor(id), tags.vrs.count("VRS_Recordable_Flavor") ? tags.vrs.at("VRS_Recordable_Flavor") : string());
  }
  // by time
  for (double t : times) {
    ctx = "time " + F(t);
    EXPECT("by-time", r.getRecordByTime(t), nth(v, [&](const Entry& e) { return e.p->timestamp >= t; }, 0));
    for (StreamId id : asked) {
      ctx = "time " + F(t) + " stream " + id.getNumericName();
      EXPECT("by-stream-time", r.getRecordByTime(id, t), nth(v, [&](const Entry& e) { return e.p->timestamp >= t && e.uid == id; }, 0));
      for (Type type : kTypes) {
        EXPECT("by-stream-type-time", r.getRecordByTime(id, type, t), nth(v, [&](const Entry& e) { return e.p->timestamp >= t && e.uid == id && e.p->recordType == type; }, 0));
      }
    }
    for (double eps : {0.0, 0.5, 0.6, 1.0, 10.0, 1e300}) {
      vector<StreamId> near = asked;
      near.push_back(StreamId());
      for (StreamId id : near) {
        for (Type type : {Type::UNDEFINED, Type::CONFIGURATION, Type::STATE, Type::DATA}) {
          double best = -1;
          for (auto& e : v.all) {
            double d = fabs(e.p->timestamp - t);
            if (d <= eps && (!id.isValid() || e.uid == id) && (type == Type::UNDEFINED || e.p->recordType == type) && (best < 0 || d < best)) {
              best = d;
            }
          }
          const Info* got = r.getNearestRecordByTime(t, eps, id, type);
          auto at = [&](const View& view) {
            return "nearest to " + F(t) + " within " + F(eps) + " of " + id.getNumericName() + " " + toString(type) + " in" + describe(view);
          };
          ++done;
          if (best < 0) {
            if (!(got == nullptr)) mc::fail("nearest-invented", at(v));
          } else {
            if (!(got != nullptr)) mc::fail("nearest-missing", at(v));
            const Entry* e = nullptr;
            for (auto& x : v.all) {
              e = x.p == got ? &x : e;
            }
            if (!(e != nullptr)) mc::fail("nearest-foreign", at(v));
            if (!((!id.isValid() || e->uid == id) && (type == Type::UNDEFINED || got->recordType == type))) mc::fail("nearest-wrong-kind", at(v));
            if (!(fabs(got->timestamp - t) == best)) mc::fail("nearest-not-nearest", at(v));
          }
        }
      }
    }
  }
  // streams
  for (RecordableTypeId type : {RecordableTypeId::Undefined, RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest2, RecordableTypeId::UnitTestRecordableClass}) {
    vector<string> flavors = {"", "a/flavor", "other", "none"};
    for (auto& f : flavors) {
      vector<StreamId> e;
      for (auto& s : v.streams) {
        auto it = s.second.vrs.find("VRS_Recordable_Flavor");
        string own = it == s.second.vrs.end() ? "" : it->second;
        if ((type == RecordableTypeId::Undefined || s.first.getTypeId() == type) && (f.empty() || own == f)) {
          e.push_back(s.first);
        }
      }
      ctx = "type " + S(int(type)) + " flavor " + f;
      EXPECT("streams-of-type", r.getStreams(type, f), e);
      if constexpr (is_same_v<R, RecordFileReader>) {
        if (type != RecordableTypeId::Undefined) {
          vector<StreamId> exact;
          for (auto& s : v.streams) {
            auto it = s.second.vrs.find("VRS_Recordable_Flavor");
            if (s.first.getTypeId() == type && (it == s.second.vrs.end() ? "" : it->second) == f) {
              exact.push_back(s.first);
            }
          }
          for (uint32_t i = 0; i <= exact.size(); ++i) {
            EXPECT("stream-for-flavor", r.getStreamForFlavor(type, f, i), i < exact.size() ? exact[i] : kNone);
          }
        }
      }
    }
    vector<StreamId> all;
    for (auto id : ids) {
      if (id.getTypeId() == type) {
        all.push_back(id);
      }
    }
    for (uint32_t i = 0; i <= all.size() + 1 && type != RecordableTypeId::Undefined; ++i) {
      ctx = "type " + S(int(type)) + " rank " + S(i);
      if constexpr (is_same_v<R, RecordFileReader>) {
        EXPECT("stream-for-type", r.getStreamForType(type, i), i < all.size() ? all[i] : kNone);
      }
      string plus = S(int(type)) + "+" + S(i + 1);
      EXPECT("stream-for-relative-name", r.getStreamForName(plus), i < all.size() ? all[i] : kNone);
      string minus = S(int(type)) + "-" + S(i + 1);
      StreamId abs(type, uint16_t(i + 1));
      EXPECT("stream-for-name", r.getStreamForName(minus), idSet.count(abs) ? abs : kNone);
    }
    for (auto& tag : vector<pair<string, string>>{{"common", "yes"}, {"which", "0/1"}, {"which", "0/2"}, {"which", "1/1"}, {"which", "2/1"}, {"which", ""}, {"absent", "x"}}) {
      StreamId e;
      bool found = false;
      for (auto& s : v.streams) {
        auto it = s.second.user.find(tag.first);
        if (!found && (type == RecordableTypeId::Undefined || s.first.getTypeId() == type) && (it == s.second.user.end() ? "" : it->second) == tag.second) {
          found = true;
          e = s.first;
        }
      }
      ctx = "tag " + tag.first + "=" + tag.second + " type " + S(int(type));
      EXPECT("stream-for-tag", r.getStreamForTag(tag.first, tag.second, type), e);
    }
  }
  for (const char* bad : {"", "-", "+", "1-", "x", "65500+0", "65500-0", "65500+99", "65500-1x"}) {
    ctx = bad;
    EXPECT("stream-for-bad-name", r.getStreamForName(bad), kNone);
  }
  for (auto& s : v.streams) {
    string serial = s.second.vrs.at("VRS_Serial_Number");
    EXPECT("stream-for-serial", r.getStreamForSerialNumber(serial), s.first);
    EXPECT("serial", r.getSerialNumber(s.first), serial);
    EXPECT("type-name", r.getOriginalRecordableTypeName(s.first), s.second.vrs.at("VRS_Original_Recordable_Name"));
  }
  EXPECT("stream-for-absent-serial", r.getStreamForSerialNumber("nobody"), kNone);
  // configuration records
  struct Seen : public StreamPlayer {
    vector<pair<StreamId, double>> got;
    vector<uint32_t> tags;
    uint32_t b = 0;
    bool processRecordHeader(const CurrentRecord& rec, DataReference& ref) override {
      b = 0;
      ref.useRawData(&b, min<uint32_t>(4, rec.recordSize));
      got.push_back({rec.streamId, rec.timestamp});
      return true;
    }
    void processRecord(const CurrentRecord& rec, uint32_t) override {
      tags.push_back(b);
      (void)rec;
    }
  };
  for (StreamId id : asked) {
    const Info* e = nth(v, [&](const Entry& x) { return x.uid == id && x.p->recordType == Type::CONFIGURATION; }, 0);
    Seen seen;
    ctx = "first configuration of " + id.getNumericName();
    EXPECT("first-config", r.readFirstConfigurationRecord(id, &seen), e != nullptr);
    EXPECT("first-config-read", seen.got, (e ? vector<pair<StreamId, double>>{{e->streamId, e->timestamp}} : vector<pair<StreamId, double>>{}));
  }
  {
    for (RecordableTypeId type : {RecordableTypeId::Undefined, RecordableTypeId::UnitTest1, RecordableTypeId::UnitTestRecordableClass, RecordableTypeId::UnitTest2}) {
      vector<pair<StreamId, double>> e;
      size_t matching = 0;
      for (auto id : ids) {
        if (type == RecordableTypeId::Undefined || id.getTypeId() == type) {
          ++matching;
          const Info* p = nth(v, [&](const Entry& x) { return x.uid == id && x.p->recordType == Type::CONFIGURATION; }, 0);
          if (p) {
            e.push_back({p->streamId, p->timestamp});
          }
        }
      }
      sort(e.begin(), e.end());
      Seen seen;
      bool ok = type == RecordableTypeId::Undefined ? r.readFirstConfigurationRecords(&seen) : r.readFirstConfigurationRecordsForType(type, &seen);
      sort(seen.got.begin(), seen.got.end());
      ctx = "first configurations of type " + S(int(type));
      EXPECT("first-configs", seen.got, e);
      if (e.empty()) {
        EXPECT("first-configs-none", ok, false);
      } else if (e.size() == matching && (!multi || type != RecordableTypeId::Undefined)) {
        EXPECT("first-configs-status", ok, true);
      }
    }
  }
  (void)multi;
  return done;
}

const vector<double> kTimes = {-numeric_limits<double>::infinity(), -1, 0.5, 1, 1.4, 1.5, 1.6, 2, 2.5, 3, 3.5, 5, 12, 1e9};

View viewOf(RecordFileReader& r, const string& path) {
  View v;
  Raw raw = walk({path});
  mc::check(raw.problem.empty(), "scan", raw.problem);
  // a record ends where the next one starts
  map<int64_t, uint32_t> sizes;
  for (auto& x : raw.recs) {
    sizes[x.pos] = x.h.recordSize;
  }
  for (auto& i : r.getIndex()) {
    mc::check(sizes.count(i.fileOffset) == 1, "index-offset");
    v.all.push_back({&i, i.streamId, sizes[i.fileOffset]});
  }
  for (auto id : r.getStreams()) {
    v.streams[id] = r.getTags(id);
  }
  return v;
}

void checkReader(RecordFileReader& r, const string& path, size_t expectRecords) {
  View v = viewOf(r, path);
  mc::check(v.all.size() == expectRecords, "records");
  uint64_t done = queries(r, v, kTimes, false);
  auto at = [&](const View& view) { return describe(view); };
  // what only this reader offers
  for (double t : kTimes) {
    for (Type type : kTypes) {
      EXPECT("by-type-time", r.getRecordByTime(type, t), nth(v, [&](const Entry& e) { return e.p->timestamp >= t && e.p->recordType == type; }, 0));
    }
  }
  map<StreamId, uint32_t> seen;
  double first = 0, last = 0;
  bool any = false;
  for (auto& e : v.all) {
    EXPECT("stream-rank-of-record", r.getRecordStreamIndex(e.p), seen[e.uid]);
    ++seen[e.uid];
    if (e.p->recordType == Type::DATA) {
      first = any ? first : e.p->timestamp;
      any = true;
      last = e.p->timestamp;
    }
  }
  EXPECT("stream-rank-of-null", r.getRecordStreamIndex(nullptr), uint32_t(v.all.size()));
  EXPECT("first-data-time", r.getFirstDataRecordTime(), first);
  EXPECT("last-data-time", r.getLastDataRecordTime(), last);
  mc::count("queries compared", done);
}

struct Opt {
  int streams, types, times, n;
  bool sorted; // else, in every order
};

const vector<StreamDef> kStreams = {
    {RecordableTypeId::UnitTest1, 0, "a/flavor", ""},
    {RecordableTypeId::UnitTest1, 1, "", ""}, // 65500-3: a hole in the numbers
    {RecordableTypeId::UnitTestRecordableClass, 0, "a/flavor", ""},
};

void body10(const Opt& o) {
  const string& dir = cleanScratch();
  vector<RecDef> recs;
  const int alphabet = o.streams * o.types * o.times;
  int from = 0;
  for (int i = 0; i < o.n; ++i) {
    int c = from + mc::choose(alphabet - from, "record");
    if (o.sorted) {
      from = c; // as they end up sorted, one order is enough
    }
    // types are taken in the order data, configuration, state
    static const Type kOrder[] = {Type::DATA, Type::CONFIGURATION, Type::STATE};
    recs.push_back({c % o.streams, kOrder[c / o.streams % o.types], double(1 + c / o.streams / o.types)});
    mc::transition();
  }
  vector<StreamDef> streams(kStreams.begin(), kStreams.begin() + o.streams);
  const string path = dir + "/f.vrs";
  Written w = writeFile(path, streams, recs, o.sorted);
  RecordFileReader r;
  mc::check(r.openFile(path) == 0, "open");
  checkReader(r, path, recs.size());
  if (o.n == 2 && mc::choose(2, "reopen")) {
    // the same reader, on another file
    const string path2 = dir + "/g.vrs";
    vector<RecDef> recs2 = {{0, Type::DATA, 2}, {0, Type::CONFIGURATION, 1}, {1, Type::DATA, 2}, {0, Type::DATA, 3}};
    writeFile(path2, {streams[1], streams[0]}, recs2, true);
    mc::check(r.closeFile() == 0, "close");
    mc::check(r.getRecordCount() == 0 && r.getStreams().empty() && r.getIndex(StreamId(RecordableTypeId::UnitTest1, 1)).empty(), "closed-yet-open");
    mc::check(r.openFile(path2) == 0, "open");
    checkReader(r, path2, recs2.size());
  }
  string what;
  for (auto& i : r.getIndex()) {
    what += S(i.streamId.getInstanceId()) + toString(i.recordType) + F(i.timestamp) + S(i.fileOffset);
  }
  mc::state(mc::hashStr(what));
  mc::traceValidated();
}

// ---------- C11 ----------

struct Multi {
  vector<vector<StreamDef>> layouts; // to pick from
  int files, n, times, types;
};

void body11(const Multi& o) {
  const string& dir = cleanScratch();
  vector<string> paths;
  vector<Written> written;
  vector<vector<RecDef>> recs;
  for (int f = 0; f < o.files; ++f) {
    int from = f == 0 ? 0 : 0;
    const auto& streams = o.layouts[size_t(mc::choose(int(o.layouts.size()), "streams"))];
    (void)from;
    vector<RecDef> rs;
    int lo = 0;
    const int nstreams = int(streams.size());
    const int alphabet = nstreams * o.types * o.times;
    const int n = nstreams == 0 ? 0 : o.n;
    for (int i = 0; i < n; ++i) {
      // alphabet+1: fewer records
      int c = lo + mc::choose(alphabet + 1 - lo, "record");
      lo = c;
      if (c == alphabet) {
        break;
      }
      static const Type kOrder[] = {Type::DATA, Type::CONFIGURATION, Type::STATE};
      rs.push_back({c % nstreams, kOrder[c / nstreams % o.types], double(1 + c / nstreams / o.types)});
      mc::transition();
    }
    map<string, string> tags;
    tags["both"] = "from" + S(f);
    if (f > 0) {
      tags["later" + S(f)] = "x";
    }
    paths.push_back(dir + "/f" + S(f) + ".vrs");
    written.push_back(writeFile(paths.back(), streams, rs, true, f, tags));
    recs.push_back(rs);
  }
  MultiRecordFileReader r;
  mc::check(r.open(paths) == 0, "open");
  // each file by itself
  struct Own {
    StreamId id;
    int file;
    Rec rec;
    uint32_t size;
  };
  map<uint32_t, Own> own; // by payload
  size_t total = 0;
  vector<Content> contents;
  map<pair<int, StreamId>, StreamTags> ownTags;
  for (int f = 0; f < o.files; ++f) {
    Content c = readFile(paths[size_t(f)]);
    mc::check(c.status == 0 && c.readErrors == 0, "open-one");
    Raw raw = walk({paths[size_t(f)]});
    for (auto& x : c.recs) {
      uint32_t tag;
      memcpy(&tag, x.data.data(), 4);
      uint32_t size = 0;
      for (auto& y : raw.recs) {
        size = y.pos == x.offset ? y.h.recordSize : size;
      }
      own[tag] = {x.id, f, x, size};
      ++total;
    }
    for (auto& s : c.streamTags) {
      ownTags[{f, s.first}] = s.second;
    }
    contents.push_back(c);
  }
  View v;
  mc::check(r.getRecordCount() == total, "merge-count", S(r.getRecordCount()) + " instead of " + S(int64_t(total)));
  map<StreamId, pair<int, StreamId>> toOwn;
  map<pair<int, StreamId>, StreamId> toUid;
  set<uint32_t> seen;
  Grabber g;
  vector<pair<pair<int, StreamId>, int64_t>> lastOffset;
  for (uint32_t i = 0; i < total; ++i) {
    const Info* p = r.getRecord(i);
    mc::check(p != nullptr, "merge-null");
    g.buf.clear();
    g.headerSeen = g.recordSeen = false;
    mc::check(r.readRecord(*p, &g, false) == 0 && g.recordSeen && g.buf.size() >= 4, "merge-read");
    uint32_t tag;
    memcpy(&tag, g.buf.data(), 4);
    mc::check(own.count(tag) && seen.insert(tag).second, "merge-repeats", S(tag));
    const Own& x = own[tag];
    mc::check(g.buf == x.rec.data && p->timestamp == x.rec.ts && p->recordType == x.rec.type && p->streamId == x.id && p->fileOffset == x.rec.offset && g.last.timestamp == x.rec.ts && g.last.formatVersion == x.rec.fv, "merge-read-differs", x.rec.str());
    StreamId uid = r.getUniqueStreamId(p);
    pair<int, StreamId> key{x.file, x.id};
    mc::check(!toOwn.count(uid) || toOwn[uid] == key, "unique-id-shared", uid.getNumericName());
    mc::check(!toUid.count(key) || toUid[key] == uid, "stream-split", uid.getNumericName());
    mc::check(uid.getTypeId() == x.id.getTypeId(), "unique-id-type");
    toOwn[uid] = key;
    toUid[key] = uid;
    if (i > 0) {
      mc::check(v.all.back().p->timestamp <= p->timestamp, "merge-order");
      if (v.all.back().uid == uid) {
        mc::check(v.all.back().p->fileOffset < p->fileOffset, "merge-order-in-stream");
      }
    }
    v.all.push_back({p, uid, x.size});
  }
  // streams and their tags
  set<pair<int, StreamId>> matched;
  for (StreamId uid : r.getStreams()) {
    const StreamTags& t = r.getTags(uid);
    const string which = t.user.count("which") ? t.user.at("which") : "?";
    const int f = which[0] - '0';
    bool found = false;
    for (auto& x : ownTags) {
      if (x.first.first == f && x.second == t) {
        mc::check(matched.insert(x.first).second, "stream-repeated", uid.getNumericName());
        if (toOwn.count(uid)) {
          mc::check(toOwn[uid] == x.first, "stream-tags-of-another", uid.getNumericName());
        }
        found = true;
      }
    }
    mc::check(found, "stream-tags-differ", uid.getNumericName());
    v.streams[uid] = t;
  }
  mc::check(matched.size() == ownTags.size(), "stream-missing", S(int64_t(matched.size())) + " instead of " + S(int64_t(ownTags.size())));
  for (auto& x : toOwn) {
    mc::check(v.streams.count(x.first), "unique-id-not-listed");
  }
  // file tags: the first file's prevail
  map<string, string> tags;
  for (auto& c : contents) {
    tags.insert(c.tags.begin(), c.tags.end());
  }
  mc::check(r.getTags() == tags, "file-tags");
  int64_t bytes = 0;
  for (auto& p : paths) {
    vector<uint8_t> b;
    slurp(p, b);
    bytes += int64_t(b.size());
  }
  mc::check(r.getTotalSourceSize() == bytes, "source-size");
  mc::count("queries compared", queries(r, v, {0.5, 1, 1.5, 2, 9}, true));
  auto at = [&](const View& view) { return describe(view); };
  uint64_t done = 0;
  for (Type t : kTypes) {
    EXPECT("first-of-type", r.getFirstRecord(t), nth(v, [&](const Entry& e) { return e.p->recordType == t; }, 0));
    const Info* last = nullptr;
    for (auto& e : v.all) {
      last = e.p->recordType == t ? e.p : last;
    }
    EXPECT("last-of-type", r.getLastRecord(t), last);
  }
  for (auto& e : v.all) {
    EXPECT("unique-id", r.getUniqueStreamId(e.p), e.uid);
  }
  EXPECT("unique-id-null", r.getUniqueStreamId(nullptr), StreamId());
  // players: attached by unique id
  map<StreamId, unique_ptr<Grabber>> players;
  for (auto& s : v.streams) {
    players[s.first] = make_unique<Grabber>();
    r.setStreamPlayer(s.first, players[s.first].get());
  }
  for (auto& e : v.all) {
    for (auto& p : players) {
      p.second->recordSeen = false;
    }
    EXPECT("read", r.readRecord(*e.p), 0);
    for (auto& p : players) {
      EXPECT("player", p.second->recordSeen, p.first == e.uid);
    }
    uint32_t tag;
    memcpy(&tag, players[e.uid]->buf.data(), 4);
    EXPECT("player-data", own[tag].rec.offset == e.p->fileOffset && own[tag].rec.data == players[e.uid]->buf, true);
  }
  Info stray{1, 40, StreamId(RecordableTypeId::UnitTest1, 1), Type::DATA};
  EXPECT("read-stray", r.readRecord(stray) != 0, true);
  mc::state(mc::hashStr(describe(v)));
  EXPECT("close", r.close(), 0);
  EXPECT("closed-count", r.getRecordCount(), 0u);
  EXPECT("closed-streams", r.getStreams().size(), size_t(0));
  EXPECT("closed-index", r.getIndex(StreamId(RecordableTypeId::UnitTest1, 1)).size(), size_t(0));
  EXPECT("closed-record", r.getRecord(0), (const Info*)nullptr);
  mc::traceValidated();
}

// Related or not: the tags decide, and a refusal leaves nothing open.
void related() {
  const string& dir = cleanScratch();
  const int files = 2 + mc::choose(2, "files");
  const char* names[] = {tag_conventions::kCaptureTimeEpoch, tag_conventions::kSessionId};
  vector<string> paths;
  vector<set<string>> values(2);
  for (int f = 0; f < files; ++f) {
    map<string, string> tags;
    for (int k = 0; k < 2; ++k) {
      int c = mc::choose(4, names[k]); // absent, empty, 1, 2
      if (c > 0) {
        tags[names[k]] = c == 1 ? "" : S(c);
      }
      if (c > 1) {
        values[size_t(k)].insert(S(c));
      }
    }
    paths.push_back(dir + "/f" + S(f) + ".vrs");
    writeFile(paths.back(), {kStreams[0]}, {{0, Type::DATA, 1}}, true, f, tags);
  }
  mc::transition(uint64_t(files));
  const bool custom = mc::choose(2, "custom");
  MultiRecordFileReader r;
  if (custom) {
    r.setRelatedFileTags({tag_conventions::kSessionId});
  }
  const bool ok = (custom || values[0].size() <= 1) && values[1].size() <= 1;
  int status = r.open(paths);
  mc::check((status == 0) == ok, ok ? "related-refused" : "unrelated-accepted");
  mc::check(r.isOpened() == ok, "opened");
  if (!ok) {
    mc::check(r.getRecordCount() == 0 && r.getStreams().empty() && r.getStreams(RecordableTypeId::UnitTest1).empty() && r.getRecord(0) == nullptr && r.getTotalSourceSize() == 0, "refused-yet-open");
    mc::check(!r.getStreamForName("65500-1").isValid(), "refused-yet-open");
    mc::check(r.open(paths[0]) == 0 && r.getRecordCount() == 1, "reopen-after-refusal");
  }
  mc::traceValidated();
}

// One of the files cannot be opened.
void failing() {
  const string& dir = cleanScratch();
  vector<string> paths;
  const int files = 1 + mc::choose(3, "files");
  const int bad = mc::choose(files, "bad");
  for (int f = 0; f < files; ++f) {
    paths.push_back(dir + "/f" + S(f) + ".vrs");
    writeFile(paths.back(), {kStreams[0], kStreams[2]}, {{0, Type::DATA, 1}}, true, f);
  }
  const int how = mc::choose(3, "how"); // missing, empty, not a VRS file
  if (how == 0) {
    unlink(paths[size_t(bad)].c_str());
  } else {
    spit(paths[size_t(bad)], vector<uint8_t>(how == 1 ? 0 : 200, 'x'));
  }
  MultiRecordFileReader r;
  mc::check(r.open(paths) != 0, "bad-file-accepted");
  mc::check(!r.isOpened() && r.getStreams(RecordableTypeId::UnitTest1).empty() && !r.getStreamForName("65500-1").isValid() && r.getTotalSourceSize() == 0, "failed-yet-open");
  writeFile(paths[size_t(bad)], {kStreams[0]}, {{0, Type::DATA, 1}}, true, bad);
  mc::check(r.open(paths) == 0 && r.getRecordCount() == uint32_t(files), "reopen-after-failure");
  mc::check(r.open(paths) != 0 && r.getRecordCount() == uint32_t(files), "open-twice");
  mc::transition(uint64_t(files));
  mc::traceValidated();
}

} // namespace

int main(int argc, char** argv) {
  string prop = "C10";
  bool deep = false;
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
    if (string(argv[i]) == "--prop") {
      prop = argv[i + 1];
    }
  }
  if (prop == "C10") {
    auto add = [](const string& name, Opt o) {
      mc::add({name, [o]() { body10(o); }, 0});
    };
    add("none", {3, 3, 3, 0, true});
    add("one", {3, 3, 3, 1, true});
    add("two", {3, 3, 3, 2, true});
    add("three", {3, 3, 3, 3, true});
    add("types", {2, 3, 1, deep ? 9 : 7, true});
    add("times", {2, 2, 3, deep ? 6 : 5, true});
    add("ranks", {1, 2, 2, deep ? 12 : 9, true});
    add("unsorted2", {3, 2, 3, 2, false});
    add("unsorted3", {2, 2, 3, 3, false});
    add("unsorted4", {1, 2, 3, deep ? 6 : 5, false});
    add("unsorted12", {1, 1, 2, deep ? 13 : 11, false}); // beyond the 10 records where boundaries matter
    add("four", {3, 3, deep ? 3 : 2, 4, true});
    if (deep) {
      add("unsorted-three-streams", {3, 3, 3, 3, false});
      add("five", {3, 3, 2, 5, true});
    }
    return mc::main(argc, argv, "C10");
  }
  const StreamDef a{RecordableTypeId::UnitTest1, 0, "", ""}, b{RecordableTypeId::UnitTest1, 0, "a/flavor", ""}, c{RecordableTypeId::UnitTestRecordableClass, 0, "other", ""}, hole{RecordableTypeId::UnitTest1, 1, "", ""}, far{RecordableTypeId::UnitTest1, 3, "", ""};
  mc::add({"related", related, 0});
  mc::add({"failing", failing, 0});
  mc::add({"one-file", []() { body11({{kStreams, {kStreams[0]}}, 1, 3, 2, 2}); }, 0});
  vector<vector<StreamDef>> layouts = {{a}, {a, b}, {hole}, {c}, {a, hole}, {}};
  mc::add({"two-files", [=]() { body11({layouts, 2, deep ? 3 : 2, 2, 2}); }, 0});
  mc::add({"two-files-times", [=]() { body11({{{a}, {a, b}}, 2, deep ? 4 : 3, deep ? 3 : 2, 1}); }, 0});
  mc::add({"three-files", [=]() { body11({{{a}, {a, b}, {hole}, {far, c}}, 3, deep ? 2 : 1, 2, 1}); }, 0});
  mc::add({"streams", [=]() { body11({{{a}, {a, b}, {hole}, {c}, {a, hole}, {far}, {a, b, a}, {far, a}}, deep ? 4 : 3, 1, 1, 1}); }, 0});
  return mc::main(argc, argv, "C11");
}
