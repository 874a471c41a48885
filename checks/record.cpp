// Record short histories in every way of writing a file, and read them back.
//   C01: what is read is what was created
//   C09: stored index = scan of the file = details cache
#include "mcsched.h"
#include "vrsutil.h"

#include <vrs/FileDetailsCache.h>
#include <vrs/FileHandlerFactory.h>
#include <vrs/TagsRecord.h>

using namespace std;
using namespace vu;

namespace {

enum Mode { kSync, kAsync, kSplit, kChunked, kPrealloc, kSyncChunked };
const char* modeName(Mode m) {
  static const char* n[] = {"sync", "async", "split", "chunked", "prealloc", "syncchunked"};
  return n[m];
}

struct Opt {
  Mode mode;
  int threads; // compression threads
  bool sort;
  int steps;
};

bool indexCheck = false; // C09

void checkIndexes(const string& path, const Content& direct) {
  RecordFileReader reader;
  FileSpec spec;
  mc::check(RecordFileReader::vrsFilePathToFileSpec(path, spec, true) == 0, "spec");
  mc::check(reader.openFile(spec) == 0, "open");
  mc::check(reader.hasIndex(), "no-index", "the finished file has no proper index");
  const auto stored = reader.getIndex();
  const auto ids = reader.getStreams();
  // the file, walked from record to record
  Raw raw = walk(spec.chunks);
  mc::check(raw.problem.empty(), "scan", raw.problem);
  const auto scanned = indexOf(raw);
  mc::check(stored == scanned, "index-differs-from-scan", "stored:\n" + str(stored) + "scanned:\n" + str(scanned));
  mc::check(is_sorted(stored.begin(), stored.end()), "index-not-sorted", str(stored));
  for (auto& r : scanned) {
    mc::check(ids.count(r.streamId) == 1, "stream-missing", r.streamId.getNumericName());
  }
  map<StreamId, StreamTags> st = reader.getStreamTags();
  // the library's own scan: the same file, whose header has lost its index (a split head is its index)
  if (spec.chunks.size() == 1 && raw.header.indexRecordOffset != 0) {
    vector<uint8_t> b = raw.bytes;
    FileFormat::FileHeader h = raw.header;
    h.indexRecordOffset = 0;
    memcpy(b.data(), &h, sizeof(h));
    const string copy = mc::scratch() + "/noindex.vrs";
    spit(copy, b);
    RecordFileReader r2;
    mc::check(r2.openFile(copy) == 0, "open-without-index");
    mc::check(!r2.hasIndex(), "has-index-without");
    mc::check(r2.getIndex() == stored, "rebuilt-index", "stored:\n" + str(stored) + "rebuilt:\n" + str(r2.getIndex()));
    mc::check(r2.getTags() == reader.getTags() && r2.getStreamTags() == st, "rebuilt-details");
    mc::count("indexes rebuilt by the library");
    r2.closeFile();
    unlink(copy.c_str());
  }
  // details cache
  const string cache = mc::scratch() + "/cache";
  mc::check(FileDetailsCache::write(cache, ids, reader.getTags(), st, stored, true) == 0, "cache-write");
  set<StreamId> ids2;
  map<string, string> tags2;
  map<StreamId, StreamTags> st2;
  vector<IndexRecord::RecordInfo> index2;
  bool has = false;
  mc::check(FileDetailsCache::read(cache, ids2, tags2, st2, index2, has) == 0, "cache-read");
  mc::check(index2 == stored, "cache-index", "stored:\n" + str(stored) + "cached:\n" + str(index2));
  mc::check(ids2 == ids && tags2 == reader.getTags() && st2 == st && has, "cache-details");
  unlink(cache.c_str());
  mc::count("index entries compared", stored.size());
}

void body(const Opt& o) {
  const string& dir = cleanScratch();
  Recordable::resetNewInstanceIds();
  auto run = [&]() {
    Dev a;
    Dev b(o.steps > 3 ? RecordableTypeId::UnitTestRecordableClass : RecordableTypeId::UnitTest1, "test/flavor");
    unique_ptr<Dev> late;
    vector<unique_ptr<Dev>> idle; // streams with no record
    const CompressionPreset presets[] = {CompressionPreset::None, CompressionPreset::Lz4Fast, CompressionPreset::ZstdFaster};
    int pa = mc::choose(3, "presetA", 1);
    a.setCompression(presets[pa]);
    b.setCompression(o.threads ? CompressionPreset::ZstdFaster : presets[mc::choose(2, "presetB", 1) * 2]);
    b.setRecordableIsActive(mc::choose(2, "inactiveB", 2) == 0);
    if (int t = mc::choose(2, "tags", 1)) {
      (void)t;
      a.setTag("name", string("with \"quotes\" and \0zero", 23));
      b.setTag("", "empty name");
      b.setTag("empty value", "");
    }
    RecordFileWriter w;
    w.setCompressionThreadPoolSize(size_t(o.threads));
    w.addRecordable(&a);
    w.addRecordable(&b);
    w.setTag("file", "tag");
    w.setTag("long", string(300, 'x'));
    const int files = mc::choose(2, "secondFile", 2) + 1;
    double t = 10;
    for (int f = 0; f < files; ++f) {
      const string path = dir + "/f" + S(f) + ".vrs";
      string where = path;
      if (!o.sort) {
        where = "{\"storage\":\"diskfile\",\"chunks\":[\"" + path + "\"],\"sort_records\":\"0\"}";
      }
      a.made.clear();
      b.made.clear();
      if (late) {
        late->made.clear();
      }
      for (auto& d : idle) {
        d->made.clear();
      }
      const int pre = o.mode == kSync || o.mode == kSyncChunked ? o.steps : mc::choose(2, "before", 1);
      auto make = [&](Dev& d) {
        int dt = mc::choose(5, "dt", 1);
        static const double steps[] = {1, 0, -2, -1e9, 0};
        double ts = dt == 4 ? Record::kMaxTimestamp : t + steps[dt];
        if (dt < 3) {
          t = max(t, ts);
        }
        int ty = mc::choose(3, "type", 1);
        int sz = mc::choose(o.mode >= kChunked && o.mode != kPrealloc ? 7 : 6, "size", 1);
        static const size_t sizes[] = {40, 0, 249, 250, 5000, 4000, 600 * 1024};
        Fill fill = sz == 5 ? kNoise : kPattern;
        Type types[] = {Type::DATA, Type::STATE, Type::CONFIGURATION};
        auto data = payload(sizes[sz], d.nextTag(), fill);
        mc::transition();
        if (sz == 4 && mc::choose(2, "direct", 1) == 1) {
          vector<uint8_t> head(data.begin(), data.begin() + 100);
          d.createDirect(ts, types[ty], 3, head, make_unique<TailDirect>(vector<uint8_t>(data.begin() + 100, data.end())), data);
        } else {
          d.create(ts, types[ty], ty == 2 ? 0 : 7, std::move(data));
        }
      };
      auto next = [&]() -> Dev& {
        int c = mc::choose(late ? 3 : 2, "stream", 1);
        return c == 0 ? a : c == 1 ? b : *late;
      };
      for (int i = 0; i < pre; ++i) {
        if (i > 0 && mc::choose(2, "stop", 1) == 1) {
          break;
        }
        make(next());
      }
      int st = 0;
      if (o.mode == kSyncChunked) {
        w.setMaxChunkSizeMB(1);
      }
      if (o.mode == kSync || o.mode == kSyncChunked) {
        st = w.writeToFile(where);
        mc::check(st == 0, "write-status", S(st));
      } else {
        if (o.mode == kPrealloc) {
          auto pi = make_unique<deque<IndexRecord::DiskRecordInfo>>();
          int n = mc::choose(4, "predicted", 1);
          static const int counts[] = {5, 1, 40, 0};
          for (int i = 0; i < counts[n]; ++i) {
            FileFormat::RecordHeader rh;
            rh.initHeader(Type::DATA, a.getStreamId(), 10 + i, 7, CompressionType::None, 0, 72, 0);
            IndexRecord::DiskRecordInfo di;
            di.timestamp = 10 + i;
            di.recordSize = 72;
            di.streamId = IndexRecord::DiskStreamId(a.getStreamId());
            di.recordType = uint8_t(Type::DATA);
            pi->push_back(di);
          }
          mc::check(w.preallocateIndex(std::move(pi)) == 0, "preallocate");
        }
        a.autoTs = b.autoTs = t;
        if (o.mode == kChunked || o.mode == kSplit) {
          st = w.createChunkedFile(where, o.mode == kChunked ? 1 : 0);
        } else {
          st = w.createFileAsync(where);
        }
        mc::check(st == 0, "create-status", S(st));
        for (int i = 0; i < o.steps; ++i) {
          int op = mc::choose(5, "op", 1);
          if (op == 0) {
            make(next());
          } else if (op == 1) {
            mc::check(w.writeRecordsAsync(t) == 0, "write-async-status");
            make(next());
          } else if (op == 2) {
            mc::check(w.writeRecordsAsync(t + 100) == 0, "write-async-status");
            this_thread::sleep_for(chrono::seconds(3)); // (virtual) the writer thread gets there
            make(next());
          } else if (op == 3 && !late) {
            late = make_unique<Dev>(RecordableTypeId::UnitTest2, "late");
            late->setTag("late", "yes");
            late->autoTs = t;
            late->setCompression(CompressionPreset::ZstdFaster);
            w.addRecordable(late.get());
            if (mc::choose(2, "lateCount", 1) == 1) {
              for (int k = 0; k < 6; ++k) {
                idle.push_back(make_unique<Dev>(RecordableTypeId::UnitTest2, "idle"));
                w.addRecordable(idle.back().get());
              }
            }
          } else {
            break;
          }
        }
        if (mc::choose(2, "closeAsync", 1) == 1) {
          mc::check(w.closeFileAsync() == 0, "close-async-status");
        }
        st = w.waitForFileClosed();
        mc::check(st == 0, "close-status", S(st));
      }
      mc::check(!w.isWriting(), "still-writing");
      // what should be there
      vector<Rec> expected;
      vector<Dev*> devs{&a, &b};
      if (late) {
        devs.push_back(late.get());
      }
      for (auto& d : idle) {
        devs.push_back(d.get());
      }
      for (Dev* d : devs) {
        if (d->isRecordableActive()) {
          expected.insert(expected.end(), d->made.begin(), d->made.end());
        }
      }
      Content c = readFile(path);
      mc::check(c.status == 0, "open-status", S(c.status));
      mc::check(c.readErrors == 0, "read-errors", diff(expected, c.recs));
      compareRecs(expected, c.recs, "records", o.sort || o.threads == 0);
      map<string, string> tags = {{"file", "tag"}, {"long", string(300, 'x')}};
      mc::check(c.tags == tags, "file-tags");
      mc::check(c.streamTags.size() == devs.size(), "streams", S(int64_t(c.streamTags.size())));
      for (Dev* d : devs) {
        {
          mc::check(c.streamTags[d->getStreamId()] == d->getStreamTags(), "stream-tags", d->getStreamId().getNumericName());
        }
      }
      mc::check(c.hasIndex, "index-missing");
      mc::state(hashRecs(c.recs, o.mode));
      if (indexCheck) {
        checkIndexes(path, c);
      }
      mc::traceValidated();
      t += 5;
    }
  };
  sched::Config cfg;
  cfg.freeSwitchAtBlock = false;
  cfg.timeoutCost = 100;
  cfg.maxSteps = 200000;
  cfg.switchCost = 100;
  if (o.mode == kSync && o.threads == 0) {
    run();
  } else {
    sched::run(run, cfg);
  }
}

// numbers of records around the sizes at which the index is written in several batches, or compressed
void batches(int mode) {
  const string& dir = cleanScratch();
  Recordable::resetNewInstanceIds();
  static const int totals[] = {2, 3, 99, 100, 101, 50000, 50001, 100000, 100001};
  const int total = totals[mc::choose(9, "total", 0)];
  const int order = total > 200 ? 0 : mc::choose(2, "order", 0);
  const string path = dir + "/f.vrs";
  {
    Dev a;
    RecordFileWriter w;
    w.addRecordable(&a);
    if (mode == kSplit) {
      mc::check(w.createChunkedFile(path, 0) == 0, "create-status");
    } else {
      a.createConfigurationRecord();
      a.createStateRecord();
    }
    for (int i = 0; i < total - 2; ++i) {
      a.create(order ? 1000000 - i : 10 + i / 2, Type::DATA, 1, payload(size_t(i % 3), a.nextTag(), kPattern));
      mc::transition();
    }
    mc::check((mode == kSplit ? w.waitForFileClosed() : w.writeToFile(path)) == 0, "write-status");
  }
  Content c = readFile(path);
  mc::check(c.status == 0 && c.recs.size() == size_t(total), "records", S(int64_t(c.recs.size())) + " instead of " + S(total));
  checkIndexes(path, c);
  mc::state(hashRecs(c.recs, mode));
  mc::traceValidated();
}

// more records than the compression threads have places for, so that a place is used for one kind of record after another
void places(bool async) {
  const string& dir = cleanScratch();
  Recordable::resetNewInstanceIds();
  auto run = [&]() {
    static const int periods[] = {1, 2, 3, 7, 20, 21};
    const int threads = mc::choose(2, "threads", 0) + 1;
    const int period = periods[mc::choose(6, "period", 0)];
    const int ka = mc::choose(5, "kindA", 0);
    const int kb = mc::choose(5, "kindB", 0);
    const int preset = mc::choose(3, "preset", 0);
    const bool sort = mc::choose(2, "unsorted", 1) == 0;
    const CompressionPreset presets[] = {CompressionPreset::Lz4Fast, CompressionPreset::ZstdFaster, CompressionPreset::ZstdLight};
    struct Kind {
      size_t size;
      Fill fill;
      Type type;
    };
    static const Kind kinds[] = {{300, kPattern, Type::DATA}, {310, kNoise, Type::DATA}, {40, kPattern, Type::STATE}, {2000, kPattern, Type::CONFIGURATION}, {1500, kNoise, Type::DATA}};
    Dev a;
    a.setCompression(presets[preset]);
    const string path = dir + "/f.vrs";
    const string where = sort ? path : "{\"storage\":\"diskfile\",\"chunks\":[\"" + path + "\"],\"sort_records\":\"0\"}";
    RecordFileWriter w;
    w.setCompressionThreadPoolSize(size_t(threads));
    w.addRecordable(&a);
    if (async) {
      mc::check(w.createFileAsync(where) == 0, "create-status");
    }
    for (int i = 0; i < threads * 21 + 24; ++i) {
      const Kind& k = kinds[(i / period) % 2 ? kb : ka];
      a.create(10 + i, k.type, 1, payload(k.size, a.nextTag(), k.fill));
      mc::transition();
    }
    mc::check((async ? w.waitForFileClosed() : w.writeToFile(where)) == 0, "write-status");
    Content c = readFile(path);
    mc::check(c.status == 0, "open-status", S(c.status));
    if (c.readErrors != 0) {
      mc::fail("read-errors", diff(a.made, c.recs));
    }
    compareRecs(a.made, c.recs, "records", sort);
    mc::state(hashRecs(c.recs, 100));
    mc::traceValidated();
  };
  sched::Config cfg;
  cfg.freeSwitchAtBlock = false;
  cfg.timeoutCost = 100;
  cfg.maxSteps = 200000;
  cfg.switchCost = 100;
  sched::run(run, cfg);
}

} // namespace

int main(int argc, char** argv) {
  string prop = "C01";
  bool deep = false;
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
    if (string(argv[i]) == "--prop") {
      prop = argv[i + 1];
    }
  }
  indexCheck = prop == "C09";
  const int cost = deep ? 5 : indexCheck ? 2 : 3;
  if (indexCheck) {
    mc::add({"batches-sync", []() { batches(kSync); }, 0});
    mc::add({"batches-split", []() { batches(kSplit); }, 0});
  }
  if (!indexCheck) {
    mc::add({"places-sync", []() { places(false); }, deep ? 1 : 0});
    mc::add({"places-async", []() { places(true); }, deep ? 1 : 0});
  }
  for (Mode m : {kSync, kAsync, kSplit, kChunked, kPrealloc, kSyncChunked}) {
    for (int threads : {0, 2}) {
      for (bool sort : {true, false}) {
        Opt o{m, threads, sort, deep ? 4 : 3};
        int c = cost + (m == kSync && threads == 0 ? 1 : 0) - (sort ? 0 : 1) - (!deep && !indexCheck && threads > 0 ? 1 : 0);
        mc::add({string(modeName(m)) + "-t" + S(threads) + (sort ? "" : "-unsorted"), [o]() { body(o); }, c});
      }
    }
  }
  return mc::main(argc, argv, prop.c_str());
}
