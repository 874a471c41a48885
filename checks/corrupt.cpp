// Damaged and foreign files: every alteration of small files, opened and read in every way.
//   C08
#include "vrsutil.h"

#include <sstream>

#include <zstd.h>

#include <vrs/DataLayout.h>
#include <vrs/DataLayoutConventions.h>
#include <vrs/DataPieces.h>
#include <vrs/RecordFormatStreamPlayer.h>
#include <vrs/utils/RecordFileInfo.h>

using namespace std;
using namespace vu;
using FileFormat::FileHeader;
using FileFormat::RecordHeader;

// ---------- memory ----------
// No block of memory may be larger than this: AddressSanitizer ends the process when one is asked
// for (the library's own buffers, and zstd's, take a few MB).
static const char* kMaxBlock = "max_allocation_size_mb=12";

namespace {

constexpr size_t kMaxRead = 1 << 20; // what the players here accept to read

// ---------- the recordings ----------

namespace conv = datalayout_conventions;

struct ConfigLayout : public AutoDataLayout {
  DataPieceValue<conv::ImageSpecType> width{conv::kImageWidth};
  DataPieceValue<conv::ImageSpecType> height{conv::kImageHeight};
  DataPieceEnum<PixelFormat, conv::ImageSpecType> pixelFormat{conv::kImagePixelFormat};
  AutoDataLayoutEnd end;
};
struct AudioConfig : public AutoDataLayout {
  DataPieceEnum<AudioSampleFormat, uint8_t> sampleType{conv::kAudioSampleFormat};
  DataPieceValue<uint8_t> channelCount{conv::kAudioChannelCount};
  DataPieceValue<uint32_t> sampleRate{conv::kAudioSampleRate};
  AutoDataLayoutEnd end;
};
struct StateLayout : public AutoDataLayout {
  DataPieceValue<double> d{"d"};
  DataPieceArray<uint16_t> a{"a", 3};
  DataPieceString s{"s"};
  DataPieceVector<int32_t> v{"v"};
  DataPieceVector<string> vs{"vs"};
  DataPieceStringMap<int32_t> mi{"mi"};
  DataPieceStringMap<string> ms{"ms"};
  AutoDataLayoutEnd end;
};
struct FrameLayout : public AutoDataLayout {
  DataPieceValue<conv::ContentBlockSizeType> size{conv::kNextContentBlockSize};
  AutoDataLayoutEnd end;
};

// Configuration, state, and data records of a layout, a block of a given size, and an image
struct Camera : public Recordable {
  ConfigLayout config;
  StateLayout state;
  FrameLayout frame;
  const bool large;
  explicit Camera(CompressionPreset p) : Recordable(RecordableTypeId::UnitTest1, "flavor"), large(p != CompressionPreset::None) {
    setCompression(p);
    addRecordFormat(Type::CONFIGURATION, 1, config.getContentBlock(), {&config});
    addRecordFormat(Type::STATE, 1, state.getContentBlock(), {&state});
    addRecordFormat(Type::DATA, 1, frame.getContentBlock() + ContentBlock(ContentType::CUSTOM) + ContentBlock(ImageFormat::RAW), {&frame});
    setTag("t1", "v1");
  }
  const Record* createConfigurationRecord() override {
    config.width.set(6);
    config.height.set(4);
    config.pixelFormat.set(PixelFormat::GREY8);
    return createRecord(0.5, Type::CONFIGURATION, 1, DataSource(config));
  }
  const Record* createStateRecord() override {
    state.d.set(2.5);
    state.a.set({1, 2, 3});
    state.s.stage(large ? string(300, 'x') : string("text"));
    state.v.stage({1, -2});
    state.vs.stage({"a", "bc"});
    state.mi.stage({{"x", 1}, {"y", 2}});
    state.ms.stage({{"k", "v"}});
    return createRecord(0.75, Type::STATE, 1, DataSource(state));
  }
  void data(double t, uint32_t tag) {
    frame.size.set(8);
    auto v = payload(8 + 24, tag, kNoise);
    if (large) {
      v.resize(400); // (more than there is to read)
    }
    createRecord(t, Type::DATA, 1, DataSource(frame, DataSourceChunk(v.data(), v.size())));
  }
};
// PCM audio, the format of which is in the configuration; compressed images in state records
struct Micro : public Recordable {
  AudioConfig config;
  explicit Micro(CompressionPreset p) : Recordable(RecordableTypeId::UnitTest2) {
    setCompression(p);
    addRecordFormat(Type::CONFIGURATION, 1, config.getContentBlock(), {&config});
    addRecordFormat(Type::STATE, 1, ContentBlock("custom/size=4") + ContentBlock(ImageFormat::JPG));
    addRecordFormat(Type::DATA, 1, ContentBlock(ContentType::AUDIO));
  }
  const Record* createConfigurationRecord() override {
    config.sampleType.set(AudioSampleFormat::S16_LE);
    config.channelCount.set(2);
    config.sampleRate.set(8000);
    return createRecord(0.5, Type::CONFIGURATION, 1, DataSource(config));
  }
  const Record* createStateRecord() override {
    auto v = payload(14, 70, kNoise);
    return createRecord(0.75, Type::STATE, 1, DataSource(DataSourceChunk(v.data(), v.size())));
  }
  void data(double t, uint32_t tag) {
    auto v = payload(16, tag, kNoise);
    createRecord(t, Type::DATA, 1, DataSource(DataSourceChunk(v.data(), v.size())));
  }
};
// Plain records
struct Plain : public Recordable {
  explicit Plain(CompressionPreset p, RecordableTypeId id = RecordableTypeId::UnitTest1) : Recordable(id) {
    setCompression(p);
  }
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
  void data(double t, size_t size, uint32_t tag, Fill fill = kNoise) {
    auto v = payload(size, tag, fill);
    createRecord(t, tag % 3 == 0 ? Type::STATE : Type::DATA, 1, DataSource(DataSourceChunk(v.data(), v.size())));
  }
};

struct Base {
  vector<size_t> cuts; // where the chunks end
  vector<uint8_t> bytes;
  vector<Rec> recs; // what reading the file gives, unaltered
  vector<pair<int64_t, int64_t>> ranges; // where each is
  map<string, string> tags;
  map<StreamId, StreamTags> streamTags;
  bool indexed = true;
  int64_t first = 0; // where the user's records start
  int64_t last = 0; // where they end
  int64_t desc = 0, descEnd = 0, index = 0, indexEnd = 0;
};

string pathOf(const string& name, size_t chunk) {
  return mc::scratch() + "/" + name + (chunk == 0 ? ".vrs" : ".vrs_" + S(int64_t(chunk)));
}
void put(const Base& b, const vector<uint8_t>& bytes, const string& name, bool same) {
  size_t at = 0;
  for (size_t c = 0; c < b.cuts.size(); ++c) {
    const size_t end = c + 1 == b.cuts.size() ? bytes.size() : min(b.cuts[c], bytes.size());
    const string p = pathOf(name, c);
    if (end > at || c == 0) {
      spit(p, bytes.data() + at, end - at);
    } else {
      unlink(p.c_str());
    }
    at = max(at, end);
  }
}
void load(Base& b, const string& name) {
  b.bytes.clear();
  b.cuts.clear();
  for (size_t c = 0;; ++c) {
    vector<uint8_t> v;
    if (!slurp(pathOf(name, c), v)) {
      break;
    }
    b.bytes.insert(b.bytes.end(), v.begin(), v.end());
    b.cuts.push_back(b.bytes.size());
  }
}
template <class T>
T& at(vector<uint8_t>& v, int64_t offset) {
  return *reinterpret_cast<T*>(v.data() + offset);
}
// Sort out where everything is, and what it reads as
void learn(Base& b, const string& name) {
  put(b, b.bytes, "base", false);
  FileHeader& h = at<FileHeader>(b.bytes, 0);
  b.desc = h.descriptionRecordOffset;
  b.descEnd = b.desc + at<RecordHeader>(b.bytes, b.desc).recordSize;
  if (h.indexRecordOffset > 0) {
    b.index = h.indexRecordOffset;
    b.indexEnd = b.index + at<RecordHeader>(b.bytes, b.index).recordSize;
  }
  if (b.cuts.size() > 1) {
    b.indexEnd = int64_t(b.cuts[0]); // (a split index)
  }
  Content c = readFile(pathOf("base", 0));
  mc::check(c.status == 0 && c.readErrors == 0 && !c.recs.empty(), "base", name);
  b.indexed = c.hasIndex;
  b.tags = c.tags;
  b.streamTags = c.streamTags;
  b.recs = c.recs;
  for (auto& r : c.tagRecs) {
    b.recs.push_back(r);
  }
  b.first = b.recs[0].offset;
  for (auto& r : b.recs) {
    b.first = min(b.first, r.offset);
    const int64_t end = r.offset + int64_t(at<RecordHeader>(b.bytes, r.offset).recordSize);
    b.ranges.emplace_back(r.offset, end);
    b.last = max(b.last, end);
  }
  if (b.index == 0 || b.index > b.first) {
    b.descEnd = b.first; // (tags may also be in records that the reader keeps for itself)
  }
  if (getenv("MC_BASES") != nullptr) {
    FILE* f = fopen("/tmp/bases.txt", "a");
    fprintf(f, "%s: %zu bytes in %zu chunks (first %zu), %zu records at %ld-%ld, description %ld-%ld, index %ld-%ld\n", name.c_str(), b.bytes.size(), b.cuts.size(), b.cuts[0], b.recs.size(), b.first, b.last, b.desc, b.descEnd, b.index, b.indexEnd);
    fclose(f);
  }
}

const char* kBases[] = {"layouts", "layouts-lz4", "plain", "zstd", "split", "front", "crashed", "crashed-split", "plain-index", "legacy", "tagsrec"};
constexpr int kBaseCount = sizeof(kBases) / sizeof(*kBases);

void make(int kind, Base& b) {
  b = Base();
  cleanScratch();
  Recordable::resetNewInstanceIds();
  const string path = pathOf("base", 0);
  RecordFileWriter w;
  w.setTag("file", "tag");
  const string name = kBases[kind];
  const bool live = name == "crashed" || name == "legacy" || name == "tagsrec" || name == "plain-index" || name == "zstd";
  if (name == "layouts" || name == "layouts-lz4") {
    const auto p = name == "layouts" ? CompressionPreset::None : CompressionPreset::Lz4Fast;
    Camera c(p);
    Micro m(p);
    w.addRecordable(&c);
    w.addRecordable(&m);
    c.createConfigurationRecord();
    c.createStateRecord();
    m.createConfigurationRecord();
    m.createStateRecord();
    c.data(1, 50);
    m.data(1.5, 60);
    c.data(2, 51);
    mc::check(w.writeToFile(path) == 0, "write");
  } else if (name == "split" || name == "crashed-split") {
    Plain p(CompressionPreset::None);
    w.addRecordable(&p);
    mc::check(w.createChunkedFile(path, 0) == 0, "create");
    for (int k = 0; k < 4; ++k) {
      p.data(1 + k, 60, uint32_t(20 + k));
    }
    w.writeRecordsAsync(100);
    mc::check(w.waitForFileClosed() == 0, "close");
  } else {
    Plain p(name == "zstd" ? CompressionPreset::ZstdMedium : CompressionPreset::None);
    Plain q(name == "zstd" ? CompressionPreset::Lz4Fast : CompressionPreset::None, RecordableTypeId::UnitTest2);
    w.addRecordable(&p);
    q.setTag("late", "tag");
    if (name == "tagsrec") {
      // a stream the file's description doesn't know: its tags are in a record of their own
      mc::check(w.createFileAsync(path) == 0, "create");
    }
    w.addRecordable(&q);
    for (int k = 0; k < 4; ++k) {
      (k == 2 ? q : p).data(1 + k, name == "zstd" ? 200 : 40, uint32_t(20 + k), name == "zstd" ? kPattern : kNoise);
    }
    if (name == "front") {
      auto pi = make_unique<deque<IndexRecord::DiskRecordInfo>>();
      for (int k = 0; k < 12; ++k) {
        IndexRecord::DiskRecordInfo di;
        di.timestamp = 1.0 + k;
        di.recordSize = 72;
        di.streamId = IndexRecord::DiskStreamId(p.getStreamId());
        di.recordType = uint8_t(Type::DATA);
        pi->push_back(di);
      }
      mc::check(w.preallocateIndex(std::move(pi)) == 0, "preallocate");
    }
    if (live) {
      // the index comes last
      if (name != "tagsrec") {
        mc::check(w.createFileAsync(path) == 0, "create");
      }
      w.writeRecordsAsync(100);
      mc::check(w.waitForFileClosed() == 0, "close");
    } else {
      mc::check(w.writeToFile(path) == 0, "write");
    }
  }
  load(b, "base");
  {
    // the same bytes each time
    at<FileHeader>(b.bytes, 0).creationId = 0x1234567890;
    uint8_t digit = 'a';
    for (auto& t : readFile(path).streamTags) {
      const auto serial = t.second.vrs.find(Recordable::getSerialNumberTagName());
      if (serial != t.second.vrs.end()) {
        for (auto at = b.bytes.begin(); (at = search(at, b.bytes.end(), serial->second.begin(), serial->second.end())) != b.bytes.end();) {
          fill(at, at + int64_t(serial->second.size()), digit++);
        }
      }
    }
  }
  FileHeader& h = at<FileHeader>(b.bytes, 0);
  if (name == "crashed" || name == "legacy") {
    // no index was written
    b.bytes.resize(size_t(h.indexRecordOffset));
    b.cuts.back() = b.bytes.size();
    h.indexRecordOffset = 0;
  }
  if (name == "crashed-split") {
    // the index in the first chunk grows as the records are written: its size isn't known
    RecordHeader& ih = at<RecordHeader>(b.bytes, h.indexRecordOffset);
    ih.recordSize = sizeof(RecordHeader);
    ih.uncompressedSize = 0;
    h.firstUserRecordOffset = 0;
  }
  if (name == "plain-index") {
    // an index without compression, as older files have
    RecordHeader& ih = at<RecordHeader>(b.bytes, h.indexRecordOffset);
    const size_t body = size_t(h.indexRecordOffset) + sizeof(RecordHeader);
    const uint32_t streams = at<uint32_t>(b.bytes, int64_t(body));
    const size_t prelude = 4 + 6 * streams + 4;
    if (ih.getCompressionType() == CompressionType::Zstd) {
      vector<uint8_t> plain(ih.uncompressedSize - prelude);
      const size_t n = ZSTD_decompress(plain.data(), plain.size(), b.bytes.data() + body + prelude, b.bytes.size() - body - prelude);
      mc::check(!ZSTD_isError(n) && n == plain.size(), "index");
      ih.recordSize = uint32_t(sizeof(RecordHeader) + prelude + n);
      ih.compressionType = 0;
      ih.uncompressedSize = 0;
      b.bytes.resize(body + prelude);
      b.bytes.insert(b.bytes.end(), plain.begin(), plain.end());
      b.cuts.back() = b.bytes.size();
    }
  }
  if (name == "legacy") {
    // descriptions in json, as older files have
    const string d1 = R"({"name":"Device #1","tags":{"a":"b"}})", d2 = R"({"tags":{"DL:Data:1:0":"{}"},"name":"x"})", t = R"({"file":"tag"})";
    vector<uint8_t> v;
    auto put32 = [&](uint32_t x) { v.insert(v.end(), reinterpret_cast<uint8_t*>(&x), reinterpret_cast<uint8_t*>(&x) + 4); };
    auto putS = [&](const string& s) { put32(uint32_t(s.size())); v.insert(v.end(), s.begin(), s.end()); };
    put32(2);
    for (int k = 0; k < 2; ++k) {
      const StreamId id(k == 0 ? RecordableTypeId::UnitTest1 : RecordableTypeId::UnitTest2, 1);
      put32(uint32_t(id.getTypeId()));
      v.push_back(1);
      v.push_back(0);
      putS(k == 0 ? d1 : d2);
    }
    putS(t);
    RecordHeader dh = at<RecordHeader>(b.bytes, h.descriptionRecordOffset);
    const size_t end = size_t(h.descriptionRecordOffset) + dh.recordSize;
    dh.recordSize = uint32_t(sizeof(dh) + v.size());
    dh.formatVersion = 1;
    vector<uint8_t> all(b.bytes.begin(), b.bytes.begin() + h.descriptionRecordOffset);
    all.insert(all.end(), reinterpret_cast<uint8_t*>(&dh), reinterpret_cast<uint8_t*>(&dh) + sizeof(dh));
    all.insert(all.end(), v.begin(), v.end());
    if (h.firstUserRecordOffset > 0) {
      at<FileHeader>(all, 0).firstUserRecordOffset = int64_t(all.size());
    }
    all.insert(all.end(), b.bytes.begin() + int64_t(end), b.bytes.end());
    const int64_t first = h.descriptionRecordOffset + dh.recordSize;
    b.bytes = all;
    at<RecordHeader>(b.bytes, first).previousRecordSize = dh.recordSize;
    b.cuts.back() = all.size();
  }
  learn(b, name);
}

// ---------- players ----------

volatile size_t gSink;

struct Deep : public RecordFormatStreamPlayer {
  ostringstream out;
  bool take(const CurrentRecord& r, const ContentBlock& cb) {
    const size_t size = cb.getBlockSize();
    if (size == ContentBlock::kSizeUnknown || size > kMaxRead) {
      return false;
    }
    vector<uint8_t> v(size);
    gSink = size_t(r.reader->read(v)) + v.size();
    return true;
  }
  bool onDataLayoutRead(const CurrentRecord& r, size_t, DataLayout& dl) override {
    out.str({});
    dl.isVarDataIndexValid();
    dl.printLayout(out);
    dl.printLayoutCompact(out);
    StateLayout mine;
    mine.mapLayout(dl);
    string s;
    vector<int32_t> v;
    vector<string> vs;
    map<string, int32_t> mi;
    map<string, string> ms;
    vector<uint16_t> a;
    gSink = size_t(mine.d.get()) + mine.s.get(s) + mine.v.get(v) + mine.vs.get(vs) + mine.mi.get(mi) + mine.ms.get(ms) + mine.a.get(a) + s.size() + v.size();
    mine.stageCurrentValues();
    gSink = dl.asJson(JsonFormatProfile::VrsFormat).size() + dl.asJson(JsonFormatProfile::ExternalCompact).size();
    return true;
  }
  bool onImageRead(const CurrentRecord& r, size_t, const ContentBlock& cb) override {
    gSink = cb.image().getRawImageSize() + cb.image().asString().size();
    return take(r, cb);
  }
  bool onAudioRead(const CurrentRecord& r, size_t, const ContentBlock& cb) override {
    gSink = cb.audio().getPcmBlockSize() + cb.audio().asString().size();
    return take(r, cb);
  }
  bool onCustomBlockRead(const CurrentRecord& r, size_t, const ContentBlock& cb) override {
    return take(r, cb);
  }
};

// Open the file, and use it in every way
Content exercise(const string& path, bool fix, bool info) {
  Content c;
  {
    RecordFileReader r;
    r.isVrsFile(path);
  }
  RecordFileReader r;
  c.status = r.openFile(path, fix);
  if (c.status != 0) {
    return c;
  }
  c.hasIndex = r.hasIndex();
  c.tags = r.getTags();
  // raw
  Grabber g;
  g.limit = kMaxRead;
  const auto& index = r.getIndex();
  for (size_t k = 0; k < index.size() && k < 200; ++k) {
    const auto& i = index[k];
    Rec rec;
    rec.id = i.streamId;
    rec.type = i.recordType;
    rec.ts = i.timestamp;
    rec.offset = i.fileOffset;
    g.headerSeen = g.recordSeen = false;
    g.buf.clear();
    rec.readStatus = r.readRecord(i, &g);
    if (rec.readStatus == 0 && !(g.headerSeen && g.recordSeen)) {
      rec.readStatus = -12345;
    }
    if (rec.readStatus == 0) {
      rec.fv = g.last.formatVersion;
      rec.data = g.buf;
    } else {
      ++c.readErrors;
    }
    c.recs.push_back(rec);
    gSink = r.getRecordSize(uint32_t(k)) + r.getRecordIndex(&i) + r.getRecordStreamIndex(&i);
    gSink = size_t(r.getRecordByTime(i.timestamp)) + size_t(r.getNearestRecordByTime(i.timestamp, 1, i.streamId));
  }
  // decoded
  deque<Deep> players;
  for (auto id : r.getStreams()) {
    c.streamTags[id] = r.getTags(id);
    players.emplace_back();
    r.setStreamPlayer(id, &players.back());
    RecordFormatMap formats;
    r.getRecordFormats(id, formats);
    gSink = r.mightContainImages(id) + r.mightContainAudio(id) + r.getSerialNumber(id).size() + r.getFlavor(id).size() + r.getOriginalRecordableTypeName(id).size();
    gSink = r.getRecordCount(id) + size_t(r.getLastRecord(id, Type::DATA)) + r.getIndex(id).size();
  }
  gSink = r.getStreamsSignature().size() + size_t(r.getTotalSourceSize()) + r.getFileChunks().size();
  r.readFirstConfigurationRecords(nullptr);
  for (size_t k = 0; k < index.size() && k < 200; ++k) {
    r.readRecord(index[k]);
  }
  r.clearStreamPlayers();
  if (info) {
    ostringstream out;
    vrs::RecordFileInfo::printOverview(out, r, vrs::RecordFileInfo::Details::Everything);
    gSink = out.str().size() + vrs::RecordFileInfo::jsonOverview(r, vrs::RecordFileInfo::Details::Everything).size();
  }
  r.closeFile();
  return c;
}

// ---------- alterations ----------

struct Change {
  vector<uint8_t> bytes;
  int64_t from = 0, to = 0; // what differs, when the size is the same
  bool sameSize = true;
  string what;
};

void judge(const Base& b, const Change& ch, const Content& c, bool fixed) {
  const auto here = [&] {
    return ch.what + "\n" + diff(b.recs, c.recs);
  };
  const bool cut = !ch.sameSize && ch.bytes.size() < b.bytes.size() && ch.to < 0;
  if (!ch.sameSize && !cut) {
    return;
  }
  const int64_t from = ch.from, to = cut ? int64_t(b.bytes.size()) : ch.to;
  auto touched = [&](int64_t x, int64_t y) { return from < y && to > x; };
  const bool header = touched(0, b.desc);
  if (header || (!b.indexed && touched(b.desc, b.descEnd) && c.status != 0)) {
    return;
  }
  // what reads without a complaint is what was recorded
  const auto find = [&](const Rec& r) {
    size_t k = 0;
    // (repairing the index may move the records)
    while (k < b.recs.size() && !(fixed ? b.recs[k].ts == r.ts && b.recs[k].id == r.id && b.recs[k].type == r.type : b.recs[k].offset == r.offset)) {
      ++k;
    }
    return k;
  };
  set<size_t> seen;
  if (c.status == 0) {
    for (auto& r : c.recs) {
      if (r.readStatus != 0) {
        continue;
      }
      const size_t k = find(r);
      if (k == b.recs.size()) {
        if (!touched(b.first, b.last) && !touched(r.offset, r.offset + int64_t(sizeof(RecordHeader)))) {
          mc::fail("invented-record", here());
        }
        continue;
      }
      if (touched(b.ranges[k].first, b.ranges[k].second)) {
        continue;
      }
      const Rec& e = b.recs[k];
      if (!(r == e)) {
        mc::fail("wrong-record", r.str() + "\n" + here());
      }
      seen.insert(k);
    }
  }
  // the records that must be there
  const bool description = touched(b.desc, b.descEnd);
  const bool index = b.index > 0 && touched(b.index, b.indexEnd);
  if (description || index || cut) {
    return;
  }
  if (c.status != 0) {
    mc::fail("open", "status " + to_string(c.status) + ", " + here());
  }
  if (c.tags != b.tags || c.streamTags != b.streamTags) {
    if (b.indexed) {
      mc::fail("tags", here());
    }
  }
  for (size_t k = 0; k < b.recs.size(); ++k) {
    if (touched(b.ranges[k].first, b.ranges[k].second)) {
      continue;
    }
    if (!b.indexed && from < b.ranges[k].first) {
      continue; // only reachable through the damaged one
    }
    if (!b.indexed && touched(b.ranges[k].second, b.ranges[k].second + int64_t(sizeof(RecordHeader)))) {
      continue; // (when the next one makes no sense, it isn't trusted either)
    }
    if (seen.count(k) == 0) {
      mc::fail("lost-record", b.recs[k].str() + "\n" + here());
    }
  }
}

Base gBase[kBaseCount];

void run(int kind, const Change& ch, bool fixToo, bool info) {
  const Base& b = gBase[kind];
  const bool fix = fixToo && mc::choose(2, "fix") == 1;
  if (mc::noting()) {
    mc::note(string(kBases[kind]) + " " + ch.what + (fix ? ", repaired" : ""));
  }
  cleanScratch();
  put(b, ch.bytes, "f", false);
  const string path = pathOf("f", 0);
  Content c = exercise(path, fix, info);
  mc::state(mc::hashInt(uint64_t(c.status), mc::hashInt(c.recs.size(), mc::hashInt(uint64_t(c.readErrors), mc::hashInt(c.tags.size(), uint64_t(kind))))));
  mc::count(c.status == 0 ? "opened" : "refused");
  mc::transition(1 + c.recs.size());
  judge(b, ch, c, fix);
  if (fix) {
    // what the repair left
    judge(b, ch, exercise(path, false, false), true);
  }
}

string hexa(const uint8_t* p, size_t n) {
  string s;
  char buf[8];
  for (size_t k = 0; k < n; ++k) {
    snprintf(buf, sizeof(buf), "%02x", p[k]);
    s += buf;
  }
  return s;
}

// Replace bytes at an offset
Change substitute(const Base& b, int64_t offset, const void* data, size_t n) {
  Change ch;
  ch.bytes = b.bytes;
  n = min(n, b.bytes.size() - size_t(offset));
  memcpy(ch.bytes.data() + offset, data, n);
  // (the bytes that do differ)
  ch.from = offset;
  ch.to = offset + int64_t(n);
  while (ch.from < ch.to && ch.bytes[size_t(ch.from)] == b.bytes[size_t(ch.from)]) {
    ++ch.from;
  }
  while (ch.to > ch.from && ch.bytes[size_t(ch.to - 1)] == b.bytes[size_t(ch.to - 1)]) {
    --ch.to;
  }
  if (mc::noting()) {
    ch.what = to_string(n) + " bytes at " + to_string(offset) + ": " + hexa(b.bytes.data() + offset, n) + " -> " + hexa(ch.bytes.data() + offset, n);
  } else {
    ch.what = "bytes at " + to_string(offset);
  }
  return ch;
}

bool structural(const Base& b, int64_t o) {
  // not in the middle of long texts or payloads
  if (o < b.desc + 60 || (b.index > 0 && o >= b.index && o < b.indexEnd)) {
    return true;
  }
  for (auto& r : b.ranges) {
    if (o >= r.first && o < r.first + int64_t(sizeof(RecordHeader)) + 8) {
      return true;
    }
  }
  return false;
}

void addBase(int kind) {
  const string name = kBases[kind];
  auto warm = [kind] { make(kind, gBase[kind]); };
  mc::add({"cut-" + name, [kind] {
    const Base& b = gBase[kind];
    const size_t n = size_t(mc::choose(int(b.bytes.size() + 1), "length"));
    Change ch;
    ch.bytes.assign(b.bytes.begin(), b.bytes.begin() + int64_t(n));
    ch.from = int64_t(n);
    ch.to = n == b.bytes.size() ? ch.from : -1;
    ch.sameSize = n == b.bytes.size();
    ch.what = "cut to " + to_string(n);
    run(kind, ch, true, n % 16 == 0);
  }, 1 << 20, warm});
  mc::add({"byte-" + name, [kind] {
    const Base& b = gBase[kind];
    const int o = mc::choose(int(b.bytes.size()), "offset");
    const uint8_t x = b.bytes[size_t(o)];
    const int s = mc::choose(mc::thorough() ? 10 : 5, "value");
    const uint8_t values[] = {uint8_t(x ^ 1), uint8_t(x ^ 0x80), uint8_t(x == 0 ? 0x41 : 0), uint8_t(x == 0xff ? 0x22 : 0xff), uint8_t(x + 3), uint8_t(x ^ 2), uint8_t(x ^ 4), uint8_t(x ^ 8), uint8_t(x ^ 0x10), uint8_t(x ^ 0x20)};
    run(kind, substitute(b, o, &values[s], 1), !b.indexed, s == 1);
  }, 1 << 20, warm});
  mc::add({"word-" + name, [kind] {
    const Base& b = gBase[kind];
    const int64_t o = mc::choose(int(b.bytes.size()), "offset");
    if (!mc::thorough() && !structural(b, o)) {
      return;
    }
    uint32_t x = 0;
    memcpy(&x, b.bytes.data() + o, min<size_t>(4, b.bytes.size() - size_t(o)));
    const uint32_t size = uint32_t(b.bytes.size()), left = size - uint32_t(o);
    const uint32_t values[] = {0, 0xffffffff, 0x7fffffff, 0x80000000, 0x01000000, 0x00100000, size, left, left - 4, left + 1, 31, 32, 33, x - 1, x + 1, x * 2};
    const int s = mc::choose(int(sizeof(values) / 4), "value");
    run(kind, substitute(b, o, &values[s], 4), !b.indexed && mc::thorough(), s == 2);
  }, 1 << 20, warm});
  mc::add({"long-" + name, [kind] {
    const Base& b = gBase[kind];
    const int64_t o = mc::choose(int(b.bytes.size()), "offset");
    if (!structural(b, o)) {
      return;
    }
    const int64_t size = int64_t(b.bytes.size());
    const double nan = numeric_limits<double>::quiet_NaN(), inf = numeric_limits<double>::infinity();
    int64_t values[] = {0, -1, INT64_MAX, INT64_MIN, size, size - 1, size - 32, b.first, b.desc, 1, 80, int64_t(1) << 32, 0, 0};
    memcpy(&values[12], &nan, 8);
    memcpy(&values[13], &inf, 8);
    const int s = mc::choose(14, "value");
    run(kind, substitute(b, o, &values[s], 8), false, s >= 12);
  }, 1 << 20, warm});
  mc::add({"shift-" + name, [kind] {
    const Base& b = gBase[kind];
    const int64_t o = mc::choose(int(b.bytes.size() + 1), "offset");
    const int how = mc::choose(mc::thorough() ? 8 : 4, "how");
    static const int kSizes[] = {1, -1, 32, -32, 4, -4, 1000, -200};
    const int n = kSizes[how];
    Change ch;
    ch.bytes = b.bytes;
    if (n > 0) {
      ch.bytes.insert(ch.bytes.begin() + o, size_t(n), uint8_t(o));
    } else {
      const int64_t m = min<int64_t>(-n, int64_t(b.bytes.size()) - o);
      ch.bytes.erase(ch.bytes.begin() + o, ch.bytes.begin() + o + m);
    }
    ch.sameSize = false;
    ch.what = (n > 0 ? "insert " : "remove ") + to_string(abs(n)) + " at " + to_string(o);
    run(kind, ch, !b.indexed && mc::thorough(), false);
  }, 1 << 20, warm});
}

// The beginning of one file, and the end of another one
void addSplices() {
  auto warm = [] {
    for (int k = 0; k < kBaseCount; ++k) {
      make(k, gBase[k]);
    }
  };
  mc::add({"splices", [] {
    const int x = mc::choose(kBaseCount, "head"), y = mc::choose(kBaseCount, "tail");
    const Base &a = gBase[x], &b = gBase[y];
    auto places = [](const Base& s) {
      vector<int64_t> v{0, int64_t(sizeof(FileHeader)), s.desc, s.descEnd, s.first, s.last};
      if (s.index > 0) {
        v.push_back(s.index);
        v.push_back(s.index + int64_t(sizeof(RecordHeader)));
        v.push_back(s.indexEnd);
      }
      for (auto& r : s.ranges) {
        v.push_back(r.second);
      }
      return v;
    };
    const int64_t p = mc::pick(places(a), "cut"), q = mc::pick(places(b), "from");
    Change ch;
    ch.bytes.assign(a.bytes.begin(), a.bytes.begin() + p);
    ch.bytes.insert(ch.bytes.end(), b.bytes.begin() + q, b.bytes.end());
    ch.sameSize = false;
    ch.what = to_string(p) + " bytes, and " + kBases[y] + " from " + to_string(q);
    run(x, ch, mc::thorough(), false);
  }, 1 << 20, warm});
}

// Files of other kinds
void addForeign() {
  mc::add({"foreign", [] {
    static const vector<string> kStarts = {"", "\x89PNG\r\n\x1a\n", "{\"storage\":\"diskfile\",\"chunks\":[\"", "{", "VisionRe", "VisionReco", "PK\x03\x04", "#!/bin/sh\n"};
    const string& start = mc::pick(kStarts, "start");
    const int length = mc::choose(300, "length");
    const int fill = mc::choose(4, "fill");
    static const uint8_t kFills[] = {0, 0xff, 0x20, 0x41};
    vector<uint8_t> v(start.begin(), start.end());
    v.resize(v.size() + size_t(length), kFills[fill]);
    cleanScratch();
    const string path = pathOf("f", 0);
    spit(path, v);
      const Content c = exercise(path, mc::choose(2, "fix") == 1, false);
    mc::transition();
    mc::check(c.status != 0, "foreign-accepted", start + " " + S(length));
    vector<uint8_t> w;
    mc::check(slurp(path, w) && w == v, "foreign-modified", start + " " + S(length));
  }});
  // a header, and nothing that makes sense after it
  mc::add({"header-only", [] {
    const int kind = mc::choose(kBaseCount, "header");
    const int length = mc::choose(400, "length");
    const int fill = mc::choose(5, "fill");
    static const uint8_t kFills[] = {0, 0xff, 1, 0x41, 0x20};
    const Base& b = gBase[kind];
    Change ch;
    ch.bytes.assign(b.bytes.begin(), b.bytes.begin() + int64_t(sizeof(FileHeader)));
    ch.bytes.resize(ch.bytes.size() + size_t(length), kFills[fill]);
    ch.sameSize = false;
    ch.what = "header and " + to_string(length) + " bytes of " + to_string(kFills[fill]);
    run(kind, ch, true, false);
  }, 1 << 20, [] {
    for (int k = 0; k < kBaseCount; ++k) {
      make(k, gBase[k]);
    }
  }});
}

} // namespace

int main(int argc, char** argv) {
  const char* options = getenv("ASAN_OPTIONS");
  if (options == nullptr || strstr(options, kMaxBlock) == nullptr) {
    // (these are read when the process starts)
    setenv("ASAN_OPTIONS", ((options != nullptr ? options + string(":") : string()) + kMaxBlock).c_str(), 1);
    execv("/proc/self/exe", argv);
  }
  for (int k = 0; k < kBaseCount; ++k) {
    addBase(k);
  }
  addSplices();
  addForeign();
  return mc::main(argc, argv, "C08");
}
