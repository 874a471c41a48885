// Recording from several threads, under every schedule within a bound.
//   C02: nothing is lost, repeated or torn; closing returns when the file is complete
//   C03: the record queue: every sequence of operations against a list, and the purge thread
#include "mcsched.h"
#include "vrsutil.h"

#include <vrs/TagsRecord.h>

#include <functional>
#include <thread>

using namespace std;
using namespace vu;

namespace {

// A recordable used by producer threads: what is created is remembered by whoever creates it.
struct Source : public Recordable {
  explicit Source(RecordableTypeId type = RecordableTypeId::UnitTest1) : Recordable(type, "flavor") {
    setCompression(CompressionPreset::None);
  }
  vector<Rec> made; // configuration and state records, made by the thread that owns the writer
  double autoTs = 0;
  const Record* make(vector<Rec>& list, double ts, Type type, uint32_t tag, size_t size, unique_ptr<DirectWriteRecordData>&& direct = nullptr, size_t head = 0) {
    auto data = payload(size, tag);
    list.push_back({getStreamId(), type, ts, 1, data, list.size()});
    if (direct) {
      return createUncompressedRecord(ts, type, 1, DataSource(DataSourceChunk(data.data(), head)), std::move(direct));
    }
    return createRecord(ts, type, 1, DataSource(DataSourceChunk(data.data(), size)));
  }
  const Record* createConfigurationRecord() override {
    return make(made, autoTs, Type::CONFIGURATION, 0x10000 + uint32_t(made.size()), 12);
  }
  const Record* createStateRecord() override {
    return make(made, autoTs, Type::STATE, 0x20000 + uint32_t(made.size()), 9);
  }
};

// Data written directly, telling when that was done.
struct Telling : public TailDirect {
  Telling(vector<uint8_t> d, atomic<int>* c) : TailDirect(std::move(d)), counter(c) {}
  int write(WriteFileHandler& file) const override {
    counter->fetch_add(1);
    return TailDirect::write(file);
  }
  atomic<int>* counter;
};

enum What { kSmall, kLarge, kDirect, kCompressible, kTiny };

void create(Source& s, vector<Rec>& list, double ts, What what, uint32_t tag) {
  switch (what) {
    case kSmall:
      s.make(list, ts, Type::DATA, tag, 60);
      break;
    case kLarge: // copied without holding the lock
      s.make(list, ts, Type::DATA, tag, 1500);
      break;
    case kDirect: {
      auto all = payload(80, tag);
      s.make(list, ts, Type::DATA, tag, 80, make_unique<TailDirect>(vector<uint8_t>(all.begin() + 20, all.end())), 20);
    } break;
    case kCompressible:
      s.make(list, ts, Type::DATA, tag, 400);
      break;
    case kTiny:
      s.make(list, ts, Type::STATE, tag, 0);
      break;
  }
}

struct Plan {
  bool shared = false; // the producers use the same recordable
  vector<vector<What>> producers; // what each creates
  vector<double> asks; // writeRecordsAsync with these
  double askSleep = 0; // time between them
  double autoDelay = 0; // 0: no automatic writing
  double step = 0; // time between the records of a producer
  int threads = 0; // of compression
  bool split = false;
  bool late = false; // a recordable is added while writing
  bool track = false; // the size of the queue
  int files = 1;
  bool closeFirst = false; // closing is asked for before waiting
  bool equalTimes = false;
};

void runPlan(const Plan& p, int freeBlock) {
  const string& dir = cleanScratch();
  Recordable::resetNewInstanceIds();
  vector<vector<Rec>> expected(size_t(p.files));
  sched::Config cfg;
  cfg.freeSwitchAtBlock = freeBlock != 0;
  cfg.timeoutCost = 1;
  cfg.maxSteps = 100000;
  sched::run(
      [&]() {
        vector<unique_ptr<Source>> sources;
        const size_t n = p.producers.size();
        for (size_t i = 0; i < (p.shared ? 1 : n); ++i) {
          sources.push_back(make_unique<Source>());
          if (p.threads > 0) {
            sources.back()->setCompression(CompressionPreset::Lz4Fast);
          }
        }
        Source lateSource(RecordableTypeId::UnitTest2);
        RecordFileWriter w;
        w.setCompressionThreadPoolSize(size_t(p.threads));
        for (auto& s : sources) {
          w.addRecordable(s.get());
        }
        if (p.track) {
          w.trackBackgroundThreadQueueByteSize();
        }
        for (int f = 0; f < p.files; ++f) {
          const string path = dir + "/f" + S(f) + ".vrs";
          for (auto& s : sources) {
            s->made.clear();
            s->autoTs = 100 * f;
          }
          const int st = p.split ? w.createChunkedFile(path, 0) : w.createFileAsync(path);
          mc::check(st == 0, "create-status");
          if (p.autoDelay > 0) {
            const double limit = 100 * f;
            mc::check(w.autoWriteRecordsAsync([limit]() { return limit + sched::now() - 1000 - 0.2; }, p.autoDelay) == 0, "auto-status");
          }
          vector<vector<Rec>> made(n);
          vector<thread> threads;
          for (size_t i = 0; i < n; ++i) {
            threads.emplace_back([&, i, f]() {
              Source& s = *sources[p.shared ? 0 : i];
              uint32_t k = 0;
              for (What what : p.producers[i]) {
                const double ts = 100 * f + (p.equalTimes ? 1 : 1 + k + 0.25 * double(i));
                create(s, made[i], ts, what, uint32_t((i + 1) << 8 | ++k));
                if (p.step > 0) {
                  this_thread::sleep_for(chrono::milliseconds(int(p.step * 1000)));
                }
              }
            });
          }
          for (double t : p.asks) {
            mc::check(w.writeRecordsAsync(100 * f + t) == 0, "ask-status");
            if (p.track) {
              mc::check(w.getBackgroundThreadQueueByteSize() < 1 << 20, "queue-size");
            }
            if (p.askSleep > 0) {
              this_thread::sleep_for(chrono::milliseconds(int(p.askSleep * 1000)));
            }
          }
          if (p.late && f == 0) {
            lateSource.autoTs = 2.1;
            w.addRecordable(&lateSource);
            create(lateSource, lateSource.made, 2.5, kSmall, 77);
          }
          for (auto& t : threads) {
            t.join();
          }
          if (p.closeFirst) {
            mc::check(w.closeFileAsync() == 0, "close-status");
            mc::check(w.writeRecordsAsync(1e9) != 0, "ask-after-close");
          }
          mc::check(w.waitForFileClosed() == 0, "wait-status");
          if (p.track) {
            mc::check(w.getBackgroundThreadQueueByteSize() == 0, "queue-not-empty");
          }
          auto& e = expected[size_t(f)];
          for (auto& m : made) {
            e.insert(e.end(), m.begin(), m.end());
          }
          for (auto& s : sources) {
            e.insert(e.end(), s->made.begin(), s->made.end());
          }
          if (p.late && f == 0) {
            e.insert(e.end(), lateSource.made.begin(), lateSource.made.end());
          }
        }
      },
      cfg);
  for (int f = 0; f < p.files; ++f) {
    Content c = readFile(dir + "/f" + S(f) + ".vrs");
    mc::check(c.status == 0, "open-status");
    mc::check(c.hasIndex, "no-index");
    if (c.readErrors != 0) {
      mc::fail("read-errors", diff(expected[size_t(f)], c.recs));
    }
    compareRecs(expected[size_t(f)], c.recs, "records", !p.equalTimes);
    uint64_t h = 1;
    for (auto& r : c.recs) {
      h = mc::hashInt(uint64_t(r.offset), h);
      h = mc::hashInt(uint64_t(r.id.getInstanceId()) * 16 + uint64_t(r.type), h);
    }
    mc::state(h);
  }
  mc::transition(sched::steps());
  mc::traceValidated();
}

// Producers that don't care about files: what they create while one file follows another is in one
// of them, once.
void across(bool shared, bool split, bool autoWrite) {
  const string& dir = cleanScratch();
  Recordable::resetNewInstanceIds();
  vector<Rec> expected;
  sched::Config cfg;
  cfg.freeSwitchAtBlock = false;
  cfg.timeoutCost = 1;
  cfg.maxSteps = 100000;
  const int producers = 2, records = 2;
  sched::run(
      [&]() {
        vector<unique_ptr<Source>> sources;
        for (int i = 0; i < (shared ? 1 : producers); ++i) {
          sources.push_back(make_unique<Source>());
        }
        RecordFileWriter w;
        for (auto& s : sources) {
          w.addRecordable(s.get());
        }
        vector<vector<Rec>> made(producers);
        vector<thread> threads;
        for (int i = 0; i < producers; ++i) {
          threads.emplace_back([&, i]() {
            static const What whats[] = {kLarge, kDirect, kSmall};
            for (int k = 0; k < records; ++k) {
              create(*sources[shared ? 0 : size_t(i)], made[size_t(i)], 1 + 2 * k + 0.5 * i, whats[(i + k) % 3], uint32_t((i + 1) << 8 | (k + 1)));
              if (k == 0) {
                this_thread::sleep_for(chrono::milliseconds(100));
              }
            }
          });
        }
        for (int f = 0; f < 2; ++f) {
          const string path = dir + "/f" + S(f) + ".vrs";
          mc::check((split ? w.createChunkedFile(path, 0) : w.createFileAsync(path)) == 0, "create-status");
          if (autoWrite) {
            mc::check(w.autoWriteRecordsAsync([]() { return 3.2; }, 0.05) == 0, "auto-status");
          } else {
            mc::check(w.writeRecordsAsync(2) == 0, "ask-status");
          }
          this_thread::sleep_for(chrono::milliseconds(100));
          if (f == 1) {
            for (auto& t : threads) {
              t.join();
            }
          }
          mc::check(w.waitForFileClosed() == 0, "wait-status");
        }
        for (auto& m : made) {
          expected.insert(expected.end(), m.begin(), m.end());
        }
        for (auto& s : sources) {
          expected.insert(expected.end(), s->made.begin(), s->made.end());
        }
      },
      cfg);
  vector<Rec> got;
  uint64_t h = 1;
  for (int f = 0; f < 2; ++f) {
    Content c = readFile(dir + "/f" + S(f) + ".vrs");
    mc::check(c.status == 0 && c.hasIndex && c.readErrors == 0, "read-status");
    got.insert(got.end(), c.recs.begin(), c.recs.end());
    h = mc::hashInt(c.recs.size(), h);
    for (auto& r : c.recs) {
      h = mc::hashInt(uint64_t(r.offset), h);
    }
  }
  auto less = [](const Rec& a, const Rec& b) { return a.ts != b.ts ? a.ts < b.ts : a.id != b.id ? a.id < b.id : a.type != b.type ? a.type < b.type : a.data < b.data; };
  sort(expected.begin(), expected.end(), less);
  sort(got.begin(), got.end(), less);
  if (!(expected == got)) {
    mc::fail("across-files", diff(expected, got));
  }
  mc::state(h);
  mc::transition(sched::steps());
  mc::traceValidated();
}

// What was asked to be written gets written, even when nothing more is asked.
void written(int batches, bool autoWrite) {
  const string& dir = cleanScratch();
  Recordable::resetNewInstanceIds();
  sched::Config cfg;
  cfg.freeSwitchAtBlock = false;
  cfg.timeoutCost = 1;
  sched::run(
      [&]() {
        Source s;
        RecordFileWriter w;
        w.addRecordable(&s);
        atomic<int> done{0};
        mc::check(w.createFileAsync(dir + "/f.vrs") == 0, "create-status");
        if (autoWrite) {
          w.autoWriteRecordsAsync([]() { return sched::now() - 1000; }, 0.5);
        }
        for (int i = 0; i < batches; ++i) {
          s.make(s.made, 0.1 + i, Type::DATA, uint32_t(i + 1), 10, make_unique<Telling>(vector<uint8_t>(5), &done), 5);
          if (!autoWrite) {
            mc::check(w.writeRecordsAsync(100) == 0, "ask-status");
          }
        }
        for (int i = 0; i < 6; ++i) { // the writer thread may be slow, but not every time
          this_thread::sleep_for(chrono::seconds(5));
        }
        mc::check(done == batches, "not-written", S(done) + " of " + S(batches) + " after 30 s");
        mc::check(w.waitForFileClosed() == 0, "wait-status");
      },
      cfg);
  mc::transition(sched::steps());
  mc::state(uint64_t(batches));
  mc::traceValidated();
}

// ---------- C03: the purge thread, and the start of a file ----------
void purging(int variant) {
  const string& dir = cleanScratch();
  Recordable::resetNewInstanceIds();
  vector<Rec> mustHave;
  map<StreamId, vector<Rec>> all;
  sched::Config cfg;
  cfg.freeSwitchAtBlock = false;
  cfg.timeoutCost = 1;
  sched::run(
      [&]() {
        Source a;
        RecordFileWriter w;
        w.addRecordable(&a);
        // records of the past: a configuration and a state, and old data
        a.autoTs = 0.5;
        a.createConfigurationRecord();
        a.createStateRecord();
        create(a, a.made, 1, kSmall, 1);
        create(a, a.made, 2, kSmall, 2);
        mc::check(w.autoPurgeRecords([]() { return 10.0; }, 0.5) == 0, "auto-purge");
        if (variant & 1) {
          this_thread::sleep_for(chrono::milliseconds(700));
        }
        create(a, a.made, 3, kSmall, 3);
        size_t before = a.made.size();
        a.autoTs = 4;
        mc::check(w.createFileAsync(dir + "/f.vrs") == 0, "create-status");
        // from now on, nothing may be purged, however old
        create(a, a.made, 5, kSmall, 5);
        this_thread::sleep_for(chrono::seconds(3));
        create(a, a.made, 6, kSmall, 6);
        if (variant & 2) {
          mc::check(w.autoPurgeRecords([]() { return 20.0; }, 0.5) == 0, "auto-purge-again");
          this_thread::sleep_for(chrono::seconds(3));
        }
        mc::check(w.waitForFileClosed() == 0, "wait-status");
        mustHave.assign(a.made.begin() + long(before), a.made.end());
        // configuration and state of the past: the last of each is never purged
        mustHave.insert(mustHave.begin(), a.made.begin(), a.made.begin() + 2);
        all[a.getStreamId()] = a.made;
        if (variant & 4) {
          // purging resumes once the file is closed
          create(a, a.made, 7, kSmall, 7);
          for (int i = 0; i < 6; ++i) {
            this_thread::sleep_for(chrono::seconds(2));
          }
          list<Record*> left;
          a.getRecordManager().collectOldRecords(1e9, left);
          for (Record* r : left) {
            mc::check(r->getRecordType() != Type::DATA, "purge-not-resumed");
            r->recycle();
          }
        }
      },
      cfg);
  Content c = readFile(dir + "/f.vrs");
  mc::check(c.status == 0 && c.readErrors == 0, "read-status");
  auto& made = all.begin()->second;
  size_t k = 0;
  for (auto& r : c.recs) {
    mc::check(find(made.begin(), made.end(), r) != made.end(), "invented");
    k += find(mustHave.begin(), mustHave.end(), r) != mustHave.end();
  }
  if (k != mustHave.size()) {
    mc::fail("purged-while-writing", diff(mustHave, c.recs));
  }
  mc::transition(sched::steps());
  mc::state(mc::hashInt(c.recs.size(), uint64_t(variant)));
  mc::traceValidated();
}

// ---------- C03: sequences of operations on a record manager, against a list ----------
struct Held {
  double ts;
  Type type;
  uint32_t tag;
  size_t size;
};
string str(const list<Held>& l) {
  string s;
  for (auto& h : l) {
    s += string(toString(h.type)) + "@" + F(h.ts) + "#" + S(h.tag) + " ";
  }
  return s;
}

// Reads a record's content by writing it to a file.
void checkRecord(Record* r, const Held& h, const list<Held>& model) {
  if (r->getTimestamp() != h.ts || r->getRecordType() != h.type || r->getSize() != h.size) {
    mc::fail("collected", "got " + string(toString(r->getRecordType())) + "@" + F(r->getTimestamp()) + " size " + S(int64_t(r->getSize())) + " expected " + str({h}) + " in " + str(model));
  }
}

void sequences(int depth) {
  RecordManager m;
  list<Held> model; // in the order records should be collected
  list<Record*> out; // collected, not recycled yet
  uint32_t tag = 0;
  static const double times[] = {5, 3, 4, Record::kMaxTimestamp};
  static const Type types[] = {Type::DATA, Type::STATE, Type::CONFIGURATION, Type::TAGS};
  for (int step = 0; step < depth; ++step) {
    int op = mc::choose(7, "op");
    mc::transition();
    switch (op) {
      case 0:
      case 1: { // create
        double ts = times[mc::choose(3, "ts")];
        Type type = types[op == 0 ? 0 : 1 + mc::choose(3, "type")];
        if (type == Type::TAGS) {
          ts = TagsRecord::kTagsRecordTimestamp;
        }
        size_t size = op == 0 && mc::choose(2, "large") ? 1200 : 24 + tag;
        auto data = payload(size, ++tag);
        Record* r = m.createRecord(ts, type, 1, DataSource(DataSourceChunk(data.data(), size)));
        mc::check(r != nullptr, "create");
        auto it = model.end();
        while (it != model.begin() && prev(it)->ts > ts) {
          --it;
        }
        model.insert(it, {ts, type, tag, size});
      } break;
      case 2: { // collect
        double limit = mc::choose(2, "limit") ? 1e9 : 4;
        list<Record*> got;
        m.collectOldRecords(limit, got);
        size_t n = 0;
        for (auto* r : got) {
          if (model.empty() || !(model.front().ts < limit)) {
            mc::fail("collected-extra", S(int64_t(n)));
          }
          checkRecord(r, model.front(), model);
          model.pop_front();
          ++n;
        }
        if (!model.empty() && model.front().ts < limit) {
          mc::fail("not-collected", str(model));
        }
        out.splice(out.end(), got);
      } break;
      case 3:
      case 4: { // purge
        double limit = op == 3 ? 4 : 4.5;
        int mode = mc::choose(2, "recycle");
        uint32_t n = m.purgeOldRecords(limit, mode == 1);
        list<Held> kept;
        const Held* lastState = nullptr;
        const Held* lastConfig = nullptr;
        for (auto& h : model) {
          if (h.ts < limit && h.type == Type::STATE) {
            lastState = &h;
          }
          if (h.ts < limit && h.type == Type::CONFIGURATION) {
            lastConfig = &h;
          }
        }
        uint32_t purged = 0;
        for (auto& h : model) {
          if (h.ts >= limit || h.type == Type::TAGS || &h == lastState || &h == lastConfig) {
            kept.push_back(h);
          } else {
            ++purged;
          }
        }
        // those of the same time may come in another order than they were created, once some were put back
        model.swap(kept);
        mc::check(n == purged, "purge-count");
      } break;
      case 5: // recycle one
        if (!out.empty()) {
          Record* r = out.front();
          out.pop_front();
          r->recycle();
        }
        break;
      case 6:
        m.purgeCache();
        mc::check(m.getCurrentCacheSize() == 0, "cache-not-empty");
        break;
    }
    uint64_t h = 3;
    for (auto& x : model) {
      h = mc::hashInt(uint64_t(x.ts) * 100 + uint64_t(x.type), h);
    }
    mc::state(mc::hashInt(out.size() * 100 + m.getCurrentCacheSize(), h));
  }
  // what is left
  list<Record*> got;
  m.collectOldRecords(1e9, got);
  if (got.size() != model.size()) {
    mc::fail("left", S(int64_t(got.size())) + " records left, expected " + str(model));
  }
  for (auto* r : got) {
    checkRecord(r, model.front(), model);
    model.pop_front();
    r->recycle();
  }
  for (auto* r : out) {
    r->recycle();
  }
  mc::traceValidated();
}

} // namespace

int main(int argc, char** argv) {
  string prop = "C02";
  bool deep = false;
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
    if (string(argv[i]) == "--prop") {
      prop = argv[i + 1];
    }
  }
  if (prop == "C02") {
    auto plan = [](const char* name, Plan p, int bound, int freeBlock = 0) { mc::add({name, [p, freeBlock]() { runPlan(p, freeBlock); }, bound}); };
    const int d = deep ? 1 : 0;
    {
      Plan p;
      p.producers = {{kSmall, kDirect}};
      p.asks = {1.5};
      plan("one-producer", p, 2 + d);
      p.track = true;
      plan("one-producer-tracked", p, 2 + d);
    }
    {
      Plan p;
      p.producers = {{kSmall, kLarge}, {kDirect}};
      p.asks = {1.1};
      plan("two-streams", p, 2 + d);
      p.shared = true;
      p.asks = {1.6, 2.6};
      plan("one-stream", p, 2 + d);
      p.producers = {{kLarge}, {kLarge}};
      p.equalTimes = true;
      plan("one-stream-equal-times", p, 2 + d);
    }
    {
      Plan p;
      p.producers = {{kDirect, kLarge, kSmall}};
      p.autoDelay = 0.5;
      p.step = 0.9;
      plan("auto-write", p, 2 + d);
      p.asks = {1.5, 2.5};
      p.askSleep = 0.6;
      plan("auto-write-and-asked", p, 2 + d);
    }
    {
      Plan p;
      p.producers = {{kCompressible, kTiny, kCompressible}};
      p.threads = 2;
      p.asks = {2.5};
      plan("compression", p, 1 + d);
      p.threads = 1;
      p.asks = {2.5, 9};
      plan("compression-1", p, 2 + d);
      p.threads = 2;
      p.autoDelay = 0.5;
      p.step = 0.9;
      p.asks = {};
      plan("compression-auto", p, 1 + d);
    }
    {
      Plan p;
      p.producers = {{kSmall}};
      p.asks = {1.5};
      p.late = true;
      plan("late-stream", p, 2 + d);
      p.split = true;
      plan("late-stream-split", p, 2 + d);
      p.autoDelay = 0.3;
      plan("late-stream-split-auto", p, 2 + d);
    }
    {
      Plan p;
      p.producers = {{kSmall}};
      p.asks = {1.5};
      p.files = 2;
      p.closeFirst = true;
      plan("two-files", p, 2 + d);
    }
    for (int k = 0; k < 8; ++k) {
      mc::add({"across-" + S(k), [k]() { across(k & 1, k & 2, k & 4); }, 1 + d});
    }
    mc::add({"written-1", []() { written(1, false); }, 2 + d});
    mc::add({"written-2", []() { written(2, false); }, 2 + d});
    mc::add({"written-auto", []() { written(2, true); }, 2 + d});
  } else {
    for (int v = 0; v < 8; ++v) {
      mc::add({"purging-" + S(v), [v]() { purging(v); }, deep ? 3 : 2});
    }
    mc::add({"sequences", [=]() { sequences(deep ? 5 : 4); }});
  }
  return mc::main(argc, argv, prop.c_str());
}
