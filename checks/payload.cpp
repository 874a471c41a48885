// How records and their payloads reach the players.
//   C15: the ways of asking for a payload     C20: players, records, and callbacks
#include "vrsutil.h"

#include <vrs/MultiRecordFileReader.h>

using namespace std;
using namespace vu;

namespace {

struct Quiet : public Dev {
  using Dev::Dev;
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
};

const CompressionPreset kPresets[] = {CompressionPreset::None, CompressionPreset::Lz4Fast, CompressionPreset::ZstdFaster};
const char* kPresetNames[] = {"none", "lz4", "zstd"};
const CompressionType kKinds[] = {CompressionType::None, CompressionType::Lz4, CompressionType::Zstd};

// Part noise, part pattern, so that the compressed form has any size.
vector<uint8_t> mixed(size_t noise, size_t pattern, uint32_t tag) {
  auto v = payload(noise, tag, kNoise);
  auto w = payload(pattern, tag + 1, kPattern);
  v.insert(v.end(), w.begin(), w.end());
  return v;
}

// ---------- C15 ----------

struct Opt15 {
  int preset;
  size_t noise, pattern;
  int steps; // requests at most
  bool wide; // all the ways of splitting a request
};

// The file has the record asked for in parts, and one of each kind after it.
struct Files15 {
  vector<vector<uint8_t>> data;
  string path;
};
int gFile = 0; // of this process

void make15(const Opt15& o, Files15& files) {
  files.path = mc::scratch() + "/f" + S(gFile++) + ".vrs";
  const string& gPath = files.path;
  vector<vector<uint8_t>>& gData = files.data;
  Recordable::resetNewInstanceIds();
  RecordFileWriter w;
  vector<unique_ptr<Quiet>> devs;
  gData.clear();
  for (int i = 0; i < 4; ++i) {
    devs.push_back(make_unique<Quiet>());
    devs.back()->setCompression(kPresets[i == 0 ? o.preset : i - 1]);
    w.addRecordable(devs.back().get());
    gData.push_back(i == 0 ? mixed(o.noise, o.pattern, 1) : mixed(40, 900, uint32_t(10 * i)));
  }
  for (int i = 0; i < 4; ++i) {
    devs[size_t(i)]->create(i, Type::DATA, 1, gData[size_t(i)]);
  }
  mc::check(w.writeToFile(gPath) == 0, "write");
  // the same bytes in two chunks, split inside of the payload
  vector<uint8_t> all;
  slurp(gPath, all);
  const Raw raw = walk({gPath});
  mc::check(raw.recs.size() == 4, "walk", raw.problem);
  const int64_t at = raw.recs[0].pos + int64_t(sizeof(FileFormat::RecordHeader)) + int64_t(raw.recs[0].h.recordSize - sizeof(FileFormat::RecordHeader)) / 2;
  spit(gPath + "_1", all.data(), size_t(at));
  spit(gPath + "_2", all.data() + at, all.size() - size_t(at));
}

struct Asker : public StreamPlayer {
  const Opt15& o;
  const vector<uint8_t>& data;
  size_t pos = 0; // delivered
  int calls = 0;
  bool beyond = false;
  vector<uint8_t> buf, buf2;
  size_t n = 0, n1 = 0;
  string trace;
  explicit Asker(const Opt15& opt, const vector<uint8_t>& d) : o(opt), data(d) {}

  // the next request; false: no more
  bool next() {
    const size_t rest = data.size() - pos;
    set<size_t> sizes{rest, 0, 1, rest / 2, rest + 1};
    if (rest > 0) {
      sizes.insert(rest - 1);
    }
    if (o.wide) {
      sizes.insert(rest + 1000);
      if (rest > 5000) {
        sizes.insert(4096);
      }
    }
    const vector<size_t> v(sizes.begin(), sizes.end());
    const int c = mc::choose(int(v.size()) + (calls > 0 ? 1 : 0), "size");
    if (c == int(v.size())) {
      return false;
    }
    n = v[size_t(c)];
    set<size_t> firsts{n, 0, n / 2};
    if (o.wide && n > 0) {
      firsts.insert(1);
      firsts.insert(n - 1);
    }
    n1 = mc::pick(vector<size_t>(firsts.rbegin(), firsts.rend()), "first");
    buf.assign(n1, 0xEE);
    buf2.assign(n - n1, 0xEE);
    if (mc::noting()) {
      mc::note("ask " + to_string(n1) + "+" + to_string(n - n1) + " at " + to_string(pos));
    }
    return true;
  }
  bool untouched() const {
    for (auto b : buf) {
      if (b != 0xEE) {
        return false;
      }
    }
    for (auto b : buf2) {
      if (b != 0xEE) {
        return false;
      }
    }
    return true;
  }
  // what was delivered
  void got(size_t count, int status, RecordReader* reader) {
    ++calls;
    mc::transition();
    const size_t rest = data.size() - pos;
    if (n > rest) {
      if (status == 0 || count != 0 || !untouched()) {
        mc::fail("beyond-the-end", "asked " + to_string(n) + " of " + to_string(rest) + " got " + to_string(count) + " status " + to_string(status));
      }
      beyond = true;
    } else {
      if (status != 0 || count != n) {
        mc::fail("request-refused", "asked " + to_string(n) + " of " + to_string(rest) + " got " + to_string(count) + " status " + to_string(status));
      }
      if (!std::equal(buf.begin(), buf.end(), data.begin() + int64_t(pos)) || !std::equal(buf2.begin(), buf2.end(), data.begin() + int64_t(pos + n1))) {
        mc::fail("wrong-bytes", "asked " + to_string(n1) + "+" + to_string(n - n1) + " at " + to_string(pos) + " of " + to_string(data.size()));
      }
      pos += n;
    }
    if (reader->getUnreadBytes() != data.size() - pos) {
      mc::fail("unread-bytes", to_string(reader->getUnreadBytes()) + " instead of " + to_string(data.size() - pos));
    }
    if (reader->getCompressionType() == CompressionType::None && reader->getUnreadDiskBytes() != data.size() - pos) {
      mc::fail("unread-disk-bytes", to_string(reader->getUnreadDiskBytes()) + " instead of " + to_string(data.size() - pos));
    }
  }
  bool processRecordHeader(const CurrentRecord& r, DataReference& ref) override {
    if (r.recordSize != data.size() || r.reader->getUnreadBytes() != data.size()) {
      mc::fail("record-size", to_string(r.recordSize) + " instead of " + to_string(data.size()));
    }
    next();
    ref.useRawData(n1 ? buf.data() : nullptr, uint32_t(n1), n > n1 ? buf2.data() : nullptr, uint32_t(n - n1));
    headerAsked = n;
    return true;
  }
  size_t headerAsked = 0;
  bool processed = false;
  void processRecord(const CurrentRecord& r, uint32_t readSize) override {
    processed = true;
    got(readSize, 0, r.reader);
    while (calls < o.steps && next()) {
      const int api = n1 == n ? mc::choose(3, "api") : 0;
      if (api == 0) {
        DataReference ref(n1 ? buf.data() : nullptr, uint32_t(n1), n > n1 ? buf2.data() : nullptr, uint32_t(n - n1));
        uint32_t count = 77;
        const int st = r.reader->read(ref, count);
        got(count, st, r.reader);
      } else if (api == 1) {
        const int st = r.reader->read(buf.data(), n);
        got(st == 0 ? n : 0, st, r.reader);
      } else {
        const int st = r.reader->read(buf);
        const size_t count = buf.size();
        got(count, st, r.reader);
      }
    }
  }
};

void readWhole(RecordFileReader& reader, const IndexRecord::RecordInfo& info, const vector<uint8_t>& data, const char* what) {
  Grabber g;
  const int st = reader.readRecord(info, &g);
  if (st != 0 || !g.recordSeen || g.buf != data) {
    mc::fail(what, "status " + to_string(st) + ", " + to_string(g.buf.size()) + " bytes");
  }
}

void body15(const Opt15& o, const Files15& files) {
  const string& gPath = files.path;
  const vector<vector<uint8_t>>& gData = files.data;
  RecordFileReader reader;
  const int chunked = o.wide ? mc::choose(2, "chunks") : 0;
  const int st = reader.openFile(chunked ? "{\"storage\":\"diskfile\",\"chunks\":[\"" + gPath + "_1\",\"" + gPath + "_2\"]}" : gPath);
  mc::check(st == 0, "open");
  auto& index = reader.getIndex();
  mc::check(index.size() == 4, "index");
  const size_t after = size_t(1 + mc::choose(3, "after"));
  Asker a(o, gData[0]);
  const int rs = reader.readRecord(index[0], &a);
  if (a.headerAsked > gData[0].size()) {
    mc::check(!a.processed && a.untouched(), "beyond-the-end");
  } else {
    mc::check(a.processed && (rs == 0 || a.beyond), "record-status", to_string(rs));
  }
  readWhole(reader, index[after], gData[after], "next-record");
  readWhole(reader, index[0], gData[0], "again");
  mc::traceValidated();
  mc::state(mc::hashInt(a.pos, mc::hashInt(uint64_t(a.calls), mc::hashInt(o.noise * 1000003 + o.pattern, uint64_t(o.preset)))));
}

// ---------- C20 ----------

enum Act { kAll, kRefuse, kNothing, kPart, kTooMuch, kTwoBuffers, kPartThenMore, kPartThenBeyond, kReadInHeaderRefuse, kCompleteFails, kReadAnother, kDetach, kActs };
const char* kActNames[] = {"all", "refuse", "nothing", "part", "too much", "two buffers", "part, more", "part, beyond", "read and refuse", "complete fails", "read another", "detach"};

struct Event {
  int player;
  char what; // A: attached, H: header, P: processed, C: complete
  StreamId id;
  Type type{};
  double ts{};
  uint32_t fv{};
  size_t size{}; // of the record, or read
  bool operator==(const Event& e) const {
    return player == e.player && what == e.what && id == e.id && type == e.type && ts == e.ts && fv == e.fv && size == e.size;
  }
  string str() const {
    return string(1, what) + S(player) + ":" + id.getNumericName() + "/" + toString(type) + "/" + F(ts) + "/v" + S(fv) + "/" + S(int64_t(size));
  }
};
string str(const vector<Event>& v) {
  string s;
  for (auto& e : v) {
    s += " " + e.str();
  }
  return s;
}

struct World {
  vector<Event> events;
  map<pair<StreamId, double>, const Rec*> recs; // by file's stream id and time
  map<double, Act> acts; // by time (each record has its own)
  function<void(const IndexRecord::RecordInfo&)> another, detach;
  bool typed = false;
};

struct Player : public StreamPlayer {
  World& w;
  int n;
  bool quiet = false; // accept everything, report nothing
  vector<uint8_t> a, b;
  Player(World& world, int number) : w(world), n(number) {}
  void onAttachedToFileReader(RecordFileReader&, StreamId id) override {
    w.events.push_back({n, 'A', id});
  }
  bool header(const CurrentRecord& r, DataReference& ref) {
    w.events.push_back({n, 'H', r.streamId, r.recordType, r.timestamp, r.formatVersion, r.recordSize});
    if (r.fileReader == nullptr || r.recordInfo == nullptr || r.recordInfo->timestamp != r.timestamp || r.recordInfo->streamId != r.streamId || r.recordInfo->recordType != r.recordType) {
      mc::fail("wrong-record-info", w.recs[{r.streamId, r.timestamp}] ? "" : "unknown");
    }
    const Act act = w.acts[r.timestamp];
    const uint32_t part = r.recordSize / 2;
    a.clear();
    b.clear();
    switch (act) {
      case kRefuse:
        return false;
      case kNothing:
        return true;
      case kPart:
      case kPartThenMore:
      case kPartThenBeyond:
        a.assign(part, 0xEE);
        ref.useVector(a);
        return true;
      case kTooMuch:
        a.assign(r.recordSize + 1, 0xEE);
        ref.useVector(a);
        return true;
      case kTwoBuffers:
        a.assign(part, 0xEE);
        b.assign(r.recordSize - part, 0xEE);
        ref.useVectors(a, b);
        return true;
      case kReadInHeaderRefuse: {
        a.assign(part, 0xEE);
        const int st = r.reader->read(a);
        verify(r, a, 0);
        mc::check(st == 0 && a.size() == part, "read-in-header");
        return false;
      }
      default:
        a.assign(r.recordSize, 0xEE);
        ref.useVector(a);
        return true;
    }
  }
  void verify(const CurrentRecord& r, const vector<uint8_t>& v, size_t pos) {
    const Rec* rec = w.recs[{r.streamId, r.timestamp}];
    mc::check(rec != nullptr, "unknown-record");
    if (pos + v.size() > rec->data.size() || !std::equal(v.begin(), v.end(), rec->data.begin() + int64_t(pos))) {
      mc::fail("wrong-data", rec->str());
    }
  }
  void process(const CurrentRecord& r, uint32_t readSize) {
    w.events.push_back({n, 'P', r.streamId, r.recordType, r.timestamp, r.formatVersion, readSize});
    mc::check(readSize == a.size() + b.size(), "read-size", to_string(readSize));
    verify(r, a, 0);
    verify(r, b, a.size());
    const Act act = w.acts[r.timestamp];
    if (act == kPartThenMore || act == kPartThenBeyond) {
      const size_t rest = r.recordSize - a.size();
      vector<uint8_t> more(act == kPartThenMore ? rest : rest + 1, 0xEE);
      const int st = r.reader->read(more);
      if (act == kPartThenMore) {
        mc::check(st == 0 && more.size() == rest, "more");
        verify(r, more, a.size());
      } else {
        mc::check(st != 0 && more.empty(), "beyond");
      }
    }
  }
  int recordReadComplete(RecordFileReader& reader, const IndexRecord::RecordInfo& info) override {
    const Act act = w.acts[info.timestamp];
    w.events.push_back({n, 'C', info.streamId, info.recordType, info.timestamp});
    if (act == kCompleteFails) {
      return 4321;
    }
    if (act == kReadAnother) {
      w.another(info);
    }
    if (act == kDetach) {
      w.detach(info);
    }
    return 0;
  }
};

struct Whole : public Player {
  using Player::Player;
  bool processRecordHeader(const CurrentRecord& r, DataReference& ref) override {
    return header(r, ref);
  }
  void processRecord(const CurrentRecord& r, uint32_t readSize) override {
    process(r, readSize);
  }
};
// one callback for each type of record
struct Typed : public Player {
  using Player::Player;
  void is(const CurrentRecord& r, Type t) {
    mc::check(r.recordType == t, "wrong-callback");
  }
  bool processStateHeader(const CurrentRecord& r, DataReference& ref) override {
    is(r, Type::STATE);
    return header(r, ref);
  }
  void processState(const CurrentRecord& r, uint32_t n) override {
    is(r, Type::STATE);
    process(r, n);
  }
  bool processConfigurationHeader(const CurrentRecord& r, DataReference& ref) override {
    is(r, Type::CONFIGURATION);
    return header(r, ref);
  }
  void processConfiguration(const CurrentRecord& r, uint32_t n) override {
    is(r, Type::CONFIGURATION);
    process(r, n);
  }
  bool processDataHeader(const CurrentRecord& r, DataReference& ref) override {
    is(r, Type::DATA);
    return header(r, ref);
  }
  void processData(const CurrentRecord& r, uint32_t n) override {
    is(r, Type::DATA);
    process(r, n);
  }
};

struct FileDef {
  string path;
  vector<StreamId> ids;
  deque<Rec> recs; // by time
};
vector<FileDef> gFiles;

// Each file: three streams, 5 records (one stream has a single one), every kind of compression and type.
void make20() {
  if (!gFiles.empty()) {
    return; // made already, by this process
  }
  double t = 1;
  for (int f = 0; f < 2; ++f) {
    gFiles.emplace_back();
    FileDef& d = gFiles.back();
    d.path = mc::scratch() + "/p" + S(f) + ".vrs";
    Recordable::resetNewInstanceIds();
    RecordFileWriter w;
    vector<unique_ptr<Quiet>> devs;
    for (int i = 0; i < 3; ++i) {
      devs.push_back(make_unique<Quiet>(i == 2 ? RecordableTypeId::UnitTest2 : RecordableTypeId::UnitTest1));
      devs.back()->setCompression(kPresets[i]);
      w.addRecordable(devs.back().get());
      d.ids.push_back(devs.back()->getStreamId());
    }
    struct {
      int dev;
      Type type;
      size_t noise, pattern;
    } defs[] = {{0, Type::CONFIGURATION, 0, 21}, {1, Type::CONFIGURATION, 30, 600}, {2, Type::DATA, 10, 900}, {1, Type::STATE, 7, 300}, {0, Type::DATA, 0, 500}, {1, Type::DATA, 5000, 6000}, {0, Type::STATE, 0, 0}};
    for (auto& def : defs) {
      Quiet& q = *devs[size_t(def.dev)];
      q.create(t, def.type, uint32_t(10 * t), mixed(def.noise, def.pattern, uint32_t(t * 8)));
      d.recs.push_back(q.made.back());
      t += 1;
    }
    mc::check(w.writeToFile(d.path) == 0, "write");
  }
}

struct Opt20 {
  bool multi;
  int how; // 0: readAllRecords, 1: each record by itself, 2: backwards, 3: with the player given
};

void body20(const Opt20& o) {
  World w;
  w.typed = mc::choose(2, "typed") == 1;
  vector<unique_ptr<Player>> players;
  for (int i = 0; i < 3; ++i) {
    if (w.typed) {
      players.push_back(make_unique<Typed>(w, i));
    } else {
      players.push_back(make_unique<Whole>(w, i));
    }
  }
  unique_ptr<RecordFileReader> one;
  unique_ptr<MultiRecordFileReader> many;
  vector<const IndexRecord::RecordInfo*> index;
  map<double, const Rec*> byTime; // (the times of all records are distinct)
  const size_t files = o.multi ? 2 : 1;
  for (size_t f = 0; f < files; ++f) {
    for (auto& r : gFiles[f].recs) {
      w.recs[{r.id, r.ts}] = &r;
      byTime[r.ts] = &r;
    }
  }
  vector<StreamId> ids; // as known by the reader
  map<const Rec*, StreamId> uid;
  if (o.multi) {
    many = make_unique<MultiRecordFileReader>();
    mc::check(many->open(vector<string>{gFiles[0].path, gFiles[1].path}) == 0, "open");
    for (uint32_t i = 0; i < many->getRecordCount(); ++i) {
      index.push_back(many->getRecord(i));
      uid[byTime[index.back()->timestamp]] = many->getUniqueStreamId(index.back());
    }
    ids.assign(many->getStreams().begin(), many->getStreams().end());
  } else {
    one = make_unique<RecordFileReader>();
    mc::check(one->openFile(gFiles[0].path) == 0, "open");
    for (auto& r : one->getIndex()) {
      index.push_back(&r);
      uid[byTime[r.timestamp]] = r.streamId;
    }
    ids.assign(one->getStreams().begin(), one->getStreams().end());
  }
  mc::check(ids.size() == 3 * files && index.size() == byTime.size(), "streams");

  vector<Event> expected;
  map<StreamId, int> attached; // by the reader's id
  map<StreamId, StreamId> fileId; // of the reader's
  for (auto& u : uid) {
    fileId[u.second] = u.first->id;
  }
  auto attach = [&](StreamId id, int p) {
    StreamPlayer* player = p < 0 ? nullptr : players[size_t(p)].get();
    if (many) {
      many->setStreamPlayer(id, player);
    } else {
      one->setStreamPlayer(id, player);
    }
    attached[id] = p;
    if (p >= 0) {
      expected.push_back({p, 'A', fileId[id]});
    }
  };
  if (o.how != 3) {
    for (auto& id : ids) {
      const int p = mc::choose(4, "player", 1); // a stream's own, none, or one shared
      attach(id, p == 0 ? int(&id - &ids[0]) % 3 : p == 1 ? -1 : p == 2 ? 0 : 1);
      if (p == 2 && mc::choose(2, "replace") == 1) {
        attach(id, 2);
      }
    }
  }
  auto read = [&](const IndexRecord::RecordInfo* r, StreamPlayer* p = nullptr) {
    if (p != nullptr) {
      return one->readRecord(*r, p);
    }
    return many ? many->readRecord(*r) : one->readRecord(*r);
  };
  for (auto* r : index) {
    w.acts[r->timestamp] = Act(mc::choose(kActs, "act", 1));
    if (mc::noting()) {
      mc::note(F(r->timestamp) + ": " + kActNames[w.acts[r->timestamp]]);
    }
  }
  // a record read from within the completion of another one: the last of the file
  const IndexRecord::RecordInfo* last = index.back();
  bool nested = false;
  vector<Event> nestedEvents;
  w.another = [&](const IndexRecord::RecordInfo& info) {
    if (nested) {
      return;
    }
    nested = true;
    vector<Event> before;
    before.swap(w.events);
    Grabber g;
    // (a reader of its own file only knows the records of that file)
    const Rec* rec = byTime[(many ? info : *last).timestamp];
    const int st = many ? many->readRecord(info, &g, false) : one->readRecord(*last, &g);
    mc::check(st == 0, "nested-read", to_string(st));
    mc::check(g.recordSeen && g.buf == rec->data, "nested-read");
    mc::check(w.events.empty(), "nested-events");
    w.events.swap(before);
    nested = false;
  };
  w.detach = [&](const IndexRecord::RecordInfo& info) {
    const StreamId id = uid[byTime[info.timestamp]];
    if (o.how != 3) {
      if (many) {
        many->setStreamPlayer(id, nullptr);
      } else {
        one->setStreamPlayer(id, nullptr);
      }
    }
  };
  // what must happen for one record; returns its status
  auto expect = [&](const IndexRecord::RecordInfo* r, int p) {
    const Rec& rec = *byTime[r->timestamp];
    if (p < 0) {
      return 0;
    }
    const Act act = w.acts[rec.ts];
    const size_t size = rec.data.size();
    expected.push_back({p, 'H', rec.id, rec.type, rec.ts, rec.fv, size});
    if (act == kRefuse || act == kTooMuch || act == kReadInHeaderRefuse) {
      return 0;
    }
    const size_t asked = act == kNothing ? 0 : act == kPart || act == kPartThenMore || act == kPartThenBeyond ? size / 2 : size;
    expected.push_back({p, 'P', rec.id, rec.type, rec.ts, rec.fv, asked});
    expected.push_back({p, 'C', rec.id, rec.type, rec.ts});
    if (act == kDetach && o.how != 3) {
      attached[uid[&rec]] = -1;
    }
    return act == kCompleteFails ? 4321 : 0;
  };
  if (o.how == 0) {
    int status = 0;
    for (auto* r : index) {
      if ((status = expect(r, attached[uid[byTime[r->timestamp]]])) != 0) {
        break; // reported at once
      }
    }
    const int got = one->readAllRecords();
    if (got != status) {
      mc::fail("read-all-status", to_string(got) + " instead of " + to_string(status));
    }
  } else {
    vector<const IndexRecord::RecordInfo*> order = index;
    if (o.how == 2) {
      std::reverse(order.begin(), order.end());
    }
    for (auto* r : order) {
      const int p = o.how == 3 ? int(r - index[0]) % 3 : attached[uid[byTime[r->timestamp]]];
      const int status = expect(r, p);
      const int got = read(r, o.how == 3 ? players[size_t(p)].get() : nullptr);
      if (got != status) {
        mc::fail("read-status", byTime[r->timestamp]->str() + ": " + to_string(got) + " instead of " + to_string(status));
      }
    }
  }
  // the first configuration records, with the players attached
  if (one && o.how == 1) {
    for (auto& id : ids) {
      const IndexRecord::RecordInfo* first = nullptr;
      for (auto* r : index) {
        if (r->streamId == id && r->recordType == Type::CONFIGURATION) {
          first = r;
          break;
        }
      }
      const int status = first ? expect(first, attached[id]) : 1;
      const bool got = one->readFirstConfigurationRecord(id);
      mc::check(got == (status == 0), "first-configuration-status");
    }
  }
  if (!(w.events == expected)) {
    size_t i = 0;
    while (i < w.events.size() && i < expected.size() && w.events[i] == expected[i]) {
      ++i;
    }
    mc::fail("callbacks", "differ at " + to_string(i) + "\n  expected" + str(expected) + "\n  got     " + str(w.events));
  }
  mc::transition(index.size());
  mc::traceValidated();
  mc::state(mc::hashStr(str(expected)));
}

} // namespace

int main(int argc, char** argv) {
  string prop = "C15";
  bool deep = false;
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
    if (string(argv[i]) == "--prop") {
      prop = argv[i + 1];
    }
  }
  if (prop == "C15") {
    struct {
      const char* name;
      size_t noise, pattern;
      int steps;
      bool wide;
    } sizes[] = {
        {"empty", 0, 0, 3, true},
        {"one", 0, 1, 3, true},
        {"small", 60, 400, deep ? 4 : 3, false},
        {"small-wide", 60, 400, 2, true},
        {"noise", 400, 0, 3, false},
        {"4k", 4096, 900, deep ? 4 : 3, false},
        {"4k-wide", 4096, 900, 2, true},
        {"lz4-block", 70000, 3000, 2, true},
        {"zstd-block", 131075, 200000, 2, deep},
        {"2M", 2 * 1024 * 1024 + 5, 3000000, 2, false},
    };
    for (auto& s : sizes) {
      for (int p = 0; p < 3; ++p) {
        Opt15 o{p, s.noise, s.pattern, s.steps, s.wide};
        auto files = make_shared<Files15>();
        mc::add({string(s.name) + "-" + kPresetNames[p], [o, files]() { body15(o, *files); }, 0, [o, files]() { make15(o, *files); }});
      }
    }
    return mc::main(argc, argv, "C15");
  }
  const char* hows[] = {"all", "each", "backwards", "given"};
  for (int how = 0; how < 4; ++how) {
    Opt20 o{false, how};
    mc::add({string("one-") + hows[how], [o]() { body20(o); }, deep ? 4 : how == 0 ? 3 : 2, make20});
  }
  for (int how = 1; how < 3; ++how) {
    Opt20 o{true, how};
    mc::add({string("two-") + hows[how], [o]() { body20(o); }, deep ? 3 : 2, make20});
  }
  return mc::main(argc, argv, "C20");
}
