// Recordings whose file operations are seen one by one.
//   C04: the process dies at any moment of a recording
//   C05: an index is repaired, and the process dies, or a write fails, at any moment of the repair
//   C06: any operation of a recording fails
//   C07: any operation of opening and reading a file fails
#include "fsx.h"
#include "mcsched.h"
#include "vrsutil.h"

using namespace std;
using namespace vu;

namespace {

enum Mode { kSync, kAsync, kSplit, kChunked, kPrealloc, kSyncChunked };
const char* modeName(Mode m) {
  static const char* n[] = {"sync", "async", "split", "chunked", "prealloc", "syncchunked"};
  return n[m];
}

struct Opt {
  Mode mode = kSync;
  int maxRecs = 3;
  bool disorder = false;
  bool big = false; // records of 600 bytes, so that there are several chunks
};

struct Plan {
  Mode mode{};
  int buffer = 0; // of the file: none, 64 bytes, or the C library's (-1)
  int threads = 0;
  int tags = 0;
  int preset = 0;
  int predicted = 1;
  struct Item {
    int stream, size, dt, batch, direct;
  };
  vector<Item> items;
};

Plan choosePlan(const Opt& o, bool compress, bool buffers) {
  Plan p;
  p.mode = o.mode;
  static const int bufs[] = {0, 64, -1};
  p.buffer = bufs[buffers ? mc::choose(3, "buffer", 1) : 0];
  p.preset = compress ? mc::choose(2, "preset", 1) : 0;
  p.tags = mc::choose(2, "tags", 1);
  if (o.mode == kPrealloc) {
    p.predicted = mc::choose(2, "predicted", 1);
  }
  static const int small[] = {3, 0, 20, 300};
  static const int large[] = {600, 20, 500, 0};
  for (int i = 0; i < o.maxRecs; ++i) {
    if (i > 0 && mc::choose(2, "stop", 1) == 1) {
      break;
    }
    Plan::Item it{};
    it.stream = mc::choose(p.mode == kSync || p.mode == kSyncChunked ? 2 : 3, "stream", 1);
    const int size = mc::choose(5, "size", 1);
    it.direct = size == 4 ? 5 : 0;
    it.size = size == 4 ? 36 : (o.big ? large : small)[size];
    const bool disorder = o.disorder && i == 1; // (by default) a record that comes late, and is written after later ones
    it.dt = (mc::choose(2, "dt", 1) != 0) != disorder ? -2 : 1;
    it.batch = p.mode == kSync || p.mode == kSyncChunked ? 0 : (mc::choose(2, "batch", 1) != 0) != (o.disorder && i == 0);
    p.items.push_back(it);
  }
  return p;
}

struct Produced {
  int status = 0;
  bool created = false;
  vector<Rec> recs;
  map<string, string> tags;
  map<StreamId, StreamTags> streamTags;
};


string where(const Plan& p, const string& path) {
  return p.buffer < 0 ? path : "{\"storage\":\"diskfile\",\"chunks\":[\"" + path + "\"],\"io_buffer_size\":\"" + S(p.buffer) + "\"}";
}

// One recording. When `again` is given, the same writer makes another file afterwards.
void produce(const Plan& p, const string& path, Produced& out, const function<void()>& beforeAgain = {}, const string& again = {}) {
  Recordable::resetNewInstanceIds();
  Dev a;
  Dev b(RecordableTypeId::UnitTest2, "test/flavor");
  unique_ptr<Dev> late;
  vector<Dev*> devs{&a, &b};
  for (Dev* d : devs) {
    d->configSize = 5;
    d->stateSize = 0;
    d->autoTs = 9;
  }
  if (p.preset) {
    a.setCompression(CompressionPreset::Lz4Fast);
    b.setCompression(CompressionPreset::ZstdFaster);
  }
  RecordFileWriter w;
  w.addRecordable(&a);
  w.addRecordable(&b);
  w.setCompressionThreadPoolSize(size_t(p.threads));
  w.setTag("file", "tag");
  if (p.tags) {
    a.setTag("name", string(70, 'n'));
    b.setTag("", "empty name");
  }
  double t = 10;
  const bool sync = p.mode == kSync || p.mode == kSyncChunked;
  auto makeAll = [&]() {
    for (auto& it : p.items) {
      if (it.stream == 2 && !late && !sync) {
        late = make_unique<Dev>(RecordableTypeId::UnitTest2, "late");
        late->setTag("late", "yes");
        late->autoTs = t;
        late->configSize = 5;
        late->stateSize = 0;
        w.addRecordable(late.get());
        devs.push_back(late.get());
      }
      Dev& d = it.stream == 2 && late ? *late : it.stream == 1 ? b : a;
      const double ts = t + it.dt;
      t += 1;
      auto data = payload(size_t(it.size), d.nextTag(), it.size > 400 ? kNoise : kPattern);
      if (it.direct) {
        d.createDirect(ts, Type::DATA, 3, vector<uint8_t>(data.begin(), data.begin() + it.direct), make_unique<TailDirect>(vector<uint8_t>(data.begin() + it.direct, data.end())), data);
      } else {
        d.create(ts, Type::DATA, 3, std::move(data));
      }
      mc::transition();
      if (it.batch && out.created) {
        w.writeRecordsAsync(t);
        this_thread::sleep_for(chrono::seconds(3)); // (virtual)
      }
    }
  };
  auto record = [&](const string& to) {
    out.created = false;
    fsx::setBuffer(p.buffer == 64 ? 64 : -1);
    int st = 0;
    if (p.mode == kSyncChunked) {
      w.setMaxChunkSizeMB(1);
    }
    if (sync) {
      a.createConfigurationRecord();
      makeAll();
      st = w.writeToFile(where(p, to));
    } else {
      if (p.mode == kPrealloc) {
        auto pi = make_unique<deque<IndexRecord::DiskRecordInfo>>();
        for (int i = 0; i < (p.predicted ? 8 : 1); ++i) {
          IndexRecord::DiskRecordInfo di;
          di.timestamp = 10 + i;
          di.recordSize = 72;
          di.streamId = IndexRecord::DiskStreamId(a.getStreamId());
          di.recordType = uint8_t(Type::DATA);
          pi->push_back(di);
        }
        mc::check(w.preallocateIndex(std::move(pi)) == 0, "preallocate");
      }
      if (p.mode == kChunked || p.mode == kSplit) {
        st = w.createChunkedFile(where(p, to), p.mode == kChunked ? 1 : 0);
      } else {
        st = w.createFileAsync(where(p, to));
      }
      out.created = st == 0;
      if (st == 0) {
        makeAll();
        st = w.waitForFileClosed();
      }
    }
    return st;
  };
  auto collect = [&]() {
    out.recs.clear();
    out.tags = {{"file", "tag"}};
    out.streamTags.clear();
    for (Dev* d : devs) {
      out.recs.insert(out.recs.end(), d->made.begin(), d->made.end());
      out.streamTags[d->getStreamId()] = d->getStreamTags();
    }
  };
  out.status = record(path);
  collect();
  if (!again.empty()) {
    beforeAgain();
    mc::check(!w.isWriting(), "still-writing-after-failure");
    for (Dev* d : devs) {
      d->made.clear();
    }
    Produced first = out;
    const int st = record(again);
    mc::check(st == 0, "writer-unusable-after-failure", "status " + S(st));
    collect();
    Content c = readFile(again);
    mc::check(c.status == 0 && c.hasIndex && c.readErrors == 0, "second-file-bad", S(c.status));
    // (the records a failed creation left in the queues may come first)
    for (auto& r : out.recs) {
      if (find(c.recs.begin(), c.recs.end(), r) == c.recs.end()) {
        mc::fail("second-file-misses-record", r.str() + "\n" + str(c.recs));
      }
    }
    mc::check(c.tags == out.tags && c.streamTags == out.streamTags, "second-file-tags");
    out = first;
  }
}

struct Loc {
  string chunk;
  int64_t off = 0, size = 0;
  bool tags = false;
  Rec rec;
};

// Where the records of the finished file are
vector<Loc> locate(const string& path, const Content& c) {
  FileSpec spec;
  mc::check(RecordFileReader::vrsFilePathToFileSpec(path, spec, true) == 0, "spec");
  Raw raw = walk(spec.chunks);
  mc::check(raw.problem.empty(), "scan", raw.problem);
  vector<pair<string, int64_t>> ends;
  int64_t end = 0;
  for (auto& ch : spec.chunks) {
    vector<uint8_t> b;
    slurp(ch, b);
    end += int64_t(b.size());
    ends.emplace_back(ch, end);
  }
  vector<Loc> v;
  for (auto& r : raw.recs) {
    Loc l;
    int64_t start = 0;
    for (auto& e : ends) {
      if (r.pos < e.second) {
        l.chunk = e.first;
        l.off = r.pos - start;
        break;
      }
      start = e.second;
    }
    l.size = r.h.recordSize;
    l.tags = r.h.getRecordType() == Type::TAGS;
    l.rec.id = r.h.getStreamId();
    for (auto& x : c.recs) {
      if (x.offset == r.pos) {
        l.rec = x;
      }
    }
    v.push_back(std::move(l));
  }
  return v;
}

void nearlyAll(const Opt& o, const function<void()>& f) {
  sched::Config cfg;
  cfg.freeSwitchAtBlock = false;
  cfg.timeoutCost = 100;
  cfg.maxSteps = 20000000;
  cfg.switchCost = 100;
  if (o.mode == kSync || o.mode == kSyncChunked) {
    f();
  } else {
    sched::run(f, cfg);
  }
}

// f(images, description of the cut, whether it is between two operations)
void eachCut(fsx::Images images, const vector<fsx::Op>& ops, size_t all, size_t ends, const function<void(const fsx::Images&, const function<string()>&, bool)>& f) {
  for (size_t i = 0; i < ops.size(); ++i) {
    const fsx::Op& op = ops[i];
    if (op.kind == fsx::kClose) {
      continue;
    }
    if (op.kind == fsx::kWrite) {
      for (int64_t n : fsx::cutPoints(op.data.size(), all, ends)) {
        fsx::apply(images, op, n);
        f(images, [&]() { return "cut after " + S(n) + " bytes of operation " + S(int64_t(i)) + ": " + op.str(); }, false);
      }
    }
    fsx::apply(images, op);
    f(images, [&]() { return "cut after operation " + S(int64_t(i)) + ": " + op.str(); }, true);
  }
}

string opsStr(const vector<fsx::Op>& ops) {
  string s;
  for (size_t i = 0; i < ops.size(); ++i) {
    s += "  " + S(int64_t(i)) + " " + ops[i].str() + "\n";
  }
  return s;
}

// ---------- C04 and C05 ----------

struct Recording {
  Produced made;
  Content final;
  vector<fsx::Op> ops;
  vector<Loc> locs;
  fsx::Images finalImages;
};

Recording makeRecording(const Plan& p, const string& dir) {
  Recording r;
  mkdir(dir.c_str(), 0700);
  const string path = dir + "/f.vrs";
  fsx::begin(true);
  produce(p, path, r.made);
  fsx::end();
  r.ops = fsx::log();
  mc::check(r.made.status == 0, "write-status", S(r.made.status));
  r.final = readFile(path);
  mc::check(r.final.status == 0 && r.final.readErrors == 0 && r.final.hasIndex, "finished-file", S(r.final.status));
  compareRecs(r.made.recs, r.final.recs, "records");
  r.locs = locate(path, r.final);
  r.finalImages = fsx::snapshot(dir);
  // the log is the file
  fsx::Images im;
  for (auto& op : r.ops) {
    fsx::apply(im, op);
  }
  mc::check(im == r.finalImages, "harness-log-differs", "the logged operations do not give the file\n" + opsStr(r.ops));
  return r;
}

// The records complete in the images: those of the longest prefix
size_t completeRecords(const Recording& r, const fsx::Images& im) {
  size_t k = 0;
  for (; k < r.locs.size(); ++k) {
    const Loc& l = r.locs[k];
    auto it = im.find(l.chunk);
    const auto& whole = r.finalImages.at(l.chunk);
    if (it == im.end() || int64_t(it->second.size()) < l.off + l.size || memcmp(it->second.data() + l.off, whole.data() + l.off, size_t(l.size)) != 0) {
      break;
    }
  }
  return k;
}

void checkCut(const Recording& r, const fsx::Images& im, const Content& c, const function<string()>& label) {
  const size_t k = completeRecords(r, im);
  auto bad = [&](const char* key, const string& detail) {
    vector<Rec> e;
    for (size_t i = 0; i < k; ++i) {
      if (!r.locs[i].tags) {
        e.push_back(r.locs[i].rec);
      }
    }
    sortRecs(e);
    mc::fail(key, label() + "\n" + detail + "\nstatus " + S(c.status) + ", index " + S(c.hasIndex) + "\n" + diff(e, c.recs) + opsStr(r.ops));
  };
  if (c.status != 0) {
    if (k > 0) {
      bad("records-lost-file-does-not-open", "complete records: " + S(int64_t(k)));
    }
    mc::count("cuts before the file opens");
    return;
  }
  vector<Rec> e;
  map<StreamId, StreamTags> tags;
  for (size_t i = 0; i < k; ++i) {
    if (!r.locs[i].tags) {
      e.push_back(r.locs[i].rec);
    }
  }
  stable_sort(e.begin(), e.end(), [](const Rec& x, const Rec& y) { return x.ts != y.ts ? x.ts < y.ts : (x.id != y.id ? x.id < y.id : x.offset < y.offset); });
  if (c.readErrors) {
    bad("record-does-not-read", "");
  }
  if (c.recs.size() < e.size()) {
    bad("records-lost", "");
  }
  if (c.recs.size() > e.size()) {
    bad("records-invented", "");
  }
  if (!(c.recs == e)) {
    bad("records-differ", "");
  }
  if (k > 0) {
    if (c.tags != r.made.tags) {
      bad("file-tags", "");
    }
    for (auto& st : r.made.streamTags) {
      bool known = false; // a late stream is described in the file once its tags record is there
      for (size_t i = 0; i < r.locs.size(); ++i) {
        known |= r.locs[i].tags && r.locs[i].rec.id == st.first && i >= k;
      }
      if (!known) {
        auto it = c.streamTags.find(st.first);
        if (it == c.streamTags.end() || !(it->second == st.second)) {
          bad("stream-tags", st.first.getNumericName());
        }
      }
    }
    mc::count(k == r.locs.size() ? "cuts with all records" : "cuts with some records");
  } else {
    mc::count("cuts with no record");
  }
}

uint64_t hashImages(const fsx::Images& im) {
  uint64_t h = 5;
  for (auto& f : im) {
    h = mc::hashStr(f.first.substr(f.first.rfind('/') + 1), h);
    h = mc::hashBytes(f.second.data(), f.second.size(), h);
  }
  return h;
}

void crashBody(const Opt& o) {
  const string& scratch = cleanScratch();
  Plan p = choosePlan(o, true, true);
  const string dir = scratch + "/w", cut = scratch + "/c";
  Recording r;
  nearlyAll(o, [&]() { r = makeRecording(p, dir); });
  set<uint64_t> seen;
  eachCut({}, r.ops, mc::thorough() ? 700 : 40, mc::thorough() ? 40 : 9, [&](const fsx::Images& im, const function<string()>& label, bool) {
    const uint64_t h = hashImages(im);
    if (!seen.insert(h).second) {
      return;
    }
    mc::state(h);
    mc::transition();
    fsx::materialize(im, dir, cut);
    Content c;
    if (access((cut + "/f.vrs").c_str(), F_OK) == 0) {
      c = readFile(cut + "/f.vrs");
    } else {
      c.status = -1;
    }
    checkCut(r, im, c, label);
    mc::count("crash points read back");
  });
  mc::traceValidated();
}

void repairBody(const Opt& o) {
  const string& scratch = cleanScratch();
  Plan p = choosePlan(o, true, false);
  const string dir = scratch + "/w", cut = scratch + "/c", again = scratch + "/d";
  Recording r;
  nearlyAll(o, [&]() { r = makeRecording(p, dir); });
  set<uint64_t> seen;
  const string file = cut + "/f.vrs", file2 = again + "/f.vrs";
  // (a description cut short gives some of the stream tags, and is gone once an index is there)
  auto same = [&](const Content& a, const Content& b) {
    return a.status == b.status && a.recs == b.recs && a.readErrors == b.readErrors && (a.tags != r.made.tags || (a.tags == b.tags && a.streamTags == b.streamTags));
  };
  size_t turn = 0;
  const size_t share = size_t(mc::choose(4, "share"));
  // small buffers make more operations (but unbuffered, the C library reads byte by byte)
  fsx::setBuffer(mc::thorough() || share == 0 ? 64 : -1);
  eachCut({}, r.ops, mc::thorough() ? 40 : 2, mc::thorough() ? 1 : 0, [&](const fsx::Images& im, const function<string()>& label, bool) {
    if (turn++ % 4 != share) {
      return;
    }
    if (!seen.insert(hashImages(im)).second || im.find(dir + "/f.vrs") == im.end()) {
      return;
    }
    mc::state(hashImages(im));
    auto bad = [&](const char* key, const string& what, const Content& base, const Content& got) {
      mc::fail(key, label() + "\n" + what + "\nwithout repair: status " + S(base.status) + ", after: status " + S(got.status) + " index " + S(got.hasIndex) + "\n" + diff(base.recs, got.recs) + "repair:\n" + opsStr(fsx::log()) + "recording:\n" + opsStr(r.ops));
    };
    fsx::materialize(im, dir, cut);
    Content base = readFile(file);
    fsx::begin(true);
    Content fixed = readFile(file, true);
    fsx::end();
    const vector<fsx::Op> ops = fsx::log();
    bool wrote = false;
    for (auto& op : ops) {
      wrote |= op.kind != fsx::kClose;
    }
    if (base.status != 0) {
      Content after = readFile(file);
      if (after.status == 0 || wrote) {
        bad("repair-of-unreadable", "", base, after);
      }
      return;
    }
    if (!same(base, fixed)) {
      bad("repair-differs", "reading with repair", base, fixed);
    }
    if (base.hasIndex) {
      if (wrote) {
        bad("repaired-without-need", "", base, fixed);
      }
      return;
    }
    mc::count("files repaired");
    Content after = readFile(file);
    if (!same(base, after)) {
      bad("repaired-file-differs", "reading after the repair", base, after);
    }
    if (!after.hasIndex && !base.recs.empty()) {
      bad("no-index-after-repair", "", base, after);
    }
    if (base.recs.empty() && !mc::thorough()) {
      return;
    }
    // the process dies during the repair
    fsx::Images im2;
    for (auto& f : im) {
      im2[cut + f.first.substr(dir.size())] = f.second;
    }
    set<uint64_t> seen2;
    auto recover = [&](const function<string()>& label2) {
      Content c = readFile(file2);
      if (!same(base, c)) {
        bad("records-lost-by-interrupted-repair", label2(), base, c);
      }
      Content f2 = readFile(file2, true);
      Content c2 = readFile(file2);
      if (!same(base, f2) || !same(base, c2) || (!c2.hasIndex && !base.recs.empty())) {
        bad("second-repair-differs", label2(), base, c2);
      }
    };
    eachCut(im2, ops, mc::thorough() ? 100 : 33, 4, [&](const fsx::Images& im3, const function<string()>& label2, bool) {
      if (!seen2.insert(hashImages(im3)).second) {
        return;
      }
      fsx::materialize(im3, cut, again);
      recover(label2);
      mc::count("crash points of repairs");
      mc::transition();
    });
    // an operation of the repair fails
    for (int kind = 0; kind < 3; ++kind) {
      for (int k = 0;; ++k) {
        fsx::materialize(im, dir, again);
        int n = 0;
        bool hit = false;
        string which;
        fsx::begin(false, [&](const fsx::Op& op) {
          fsx::Fault f;
          if (op.kind == fsx::kClose || (kind > 0 && !hit && op.kind != fsx::kWrite)) {
            return f;
          }
          if (n++ == k || (kind == 2 && hit)) {
            if (!hit) {
              which = op.str();
            }
            hit = true;
            f.fail = true;
            f.err = kind == 0 ? EIO : ENOSPC;
            f.partial = kind == 0 ? -1 : int64_t(op.size / 2);
          }
          return f;
        });
        Content c = readFile(file2, true, false);
        fsx::end();
        if (!hit) {
          break;
        }
        (void)c;
        recover([&]() { return "operation " + S(k) + " of the repair failed (" + (kind == 0 ? "once" : kind == 1 ? "in part, once" : "in part, and those after") + "): " + which; });
        mc::count("failing operations of repairs");
        mc::transition();
      }
    }
  });
  fsx::setBuffer(-1);
  mc::traceValidated();
}

// ---------- C06 ----------

void writeFaultBody(const Opt& o) {
  const string& scratch = cleanScratch();
  Plan p = choosePlan(o, true, true);
  const string dir = scratch + "/w";
  const string path = dir + "/f.vrs";
  {
    mkdir(dir.c_str(), 0700);
    fsx::begin(false);
    Produced made;
    nearlyAll(o, [&]() { produce(p, path, made); });
    fsx::end();
    const uint64_t total = fsx::operations();
    mc::check(made.status == 0, "write-status", S(made.status));
    static const char* kinds[] = {"failed once", "failed, and all those after", "wrote half, once", "wrote half, and nothing after"};
    for (int kind = 0; kind < 4; ++kind) {
      for (uint64_t k = 0; k < total; ++k) {
        clearDir(dir);
        uint64_t n = 0;
        bool hit = false;
        string which;
        fsx::begin(false, [&](const fsx::Op& op) {
          fsx::Fault f;
          const bool now = n == k;
          if (now || (hit && (kind & 1))) {
            if (now) {
              which = op.str();
              if (kind >= 2 && op.kind != fsx::kWrite) {
                ++n;
                return f;
              }
            }
            hit = true;
            f.fail = true;
            f.err = kind >= 2 ? ENOSPC : EIO;
            if (now && kind >= 2) {
              f.partial = int64_t(op.size / 2);
            }
          }
          ++n;
          return f;
        });
        Produced out;
        nearlyAll(o, [&]() { produce(p, path, out, []() { fsx::end(); }, dir + "/again.vrs"); });
        fsx::end();
        if (!hit) {
          mc::count("recordings without the fault");
        }
        mc::transition();
        mc::count("operations made to fail");
        if (out.status == 0) {
          Content c = readFile(path);
          auto label = [&]() { return "operation " + S(int64_t(k)) + " " + kinds[kind] + ": " + which; };
          if (c.status != 0 || !c.hasIndex || c.readErrors) {
            mc::fail("failure-passed-over", label() + "\nthe recording succeeded; open status " + S(c.status) + ", index " + S(c.hasIndex) + ", records that do not read " + S(c.readErrors) + "\n" + diff(out.recs, c.recs));
          }
          vector<Rec> e = out.recs;
          sortRecs(e);
          if (!(e == c.recs) && e.size() != c.recs.size()) {
            mc::fail("failure-passed-over", label() + "\nthe recording succeeded\n" + diff(e, c.recs));
          }
          compareRecs(out.recs, c.recs, "failure-passed-over");
          if (c.tags != out.tags || c.streamTags != out.streamTags) {
            mc::fail("failure-passed-over-tags", label());
          }
          mc::count(hit ? "failures without consequence" : "complete files");
        } else {
          mc::count("failures reported");
        }
        mc::state(mc::hashStr(which, mc::hashInt(uint64_t(kind) * 1000 + uint64_t(out.status != 0), uint64_t(p.mode))));
      }
    }
  }
  mc::traceValidated();
}

// ---------- C07 ----------

void readFaultBody(const Opt& o) {
  const string& scratch = cleanScratch();
  Plan p = choosePlan(o, true, false);
  const string dir = scratch + "/w";
  const string path = dir + "/f.vrs";
  Produced made;
  nearlyAll(o, [&]() {
    mkdir(dir.c_str(), 0700);
    produce(p, path, made);
    mc::check(made.status == 0, "write-status", S(made.status));
  });
  if (o.mode == kSyncChunked) { // chunks of any size, to read the files faster
    vector<uint8_t> b;
    slurp(path, b);
    static const size_t parts[] = {2, 4, 3};
    const size_t at = b.size() / parts[mc::choose(3, "chunk", 1)];
    spit(path + "_1", vector<uint8_t>(b.begin() + at, b.end()));
    b.resize(at);
    spit(path, b);
  }
  const int damage = mc::choose(3, "damage", 1);
  if (damage) {
    FileSpec spec;
    mc::check(RecordFileReader::vrsFilePathToFileSpec(path, spec, true) == 0, "spec");
    Raw raw = walk(spec.chunks);
    vector<uint8_t> b;
    if (spec.chunks.size() == 1 && damage == 1) { // no index
      slurp(path, b);
      memset(b.data() + offsetof(FileFormat::FileHeader, indexRecordOffset), 0, sizeof(FileFormat::FileHeader::indexRecordOffset));
      spit(path, b);
    } else { // cut
      slurp(spec.chunks.back(), b);
      b.resize(b.size() - min<size_t>(b.size(), spec.chunks.size() == 1 ? 40 + b.size() / 4 : 10));
      spit(spec.chunks.back(), b);
    }
  }
  const int buffer = mc::choose(2, "readBuffer", 1) ? -1 : 24; // (unbuffered, the C library reads byte by byte)
  fsx::setBuffer(buffer);
  fsx::begin(false);
  Content good = readFile(path);
  fsx::end();
  const uint64_t total = fsx::operations();
  if (!damage) {
    mc::check(good.status == 0 && good.readErrors == 0 && good.hasIndex, "read", S(good.status));
  }
  static const char* kinds[] = {"failed once", "failed, and all those after", "found the end of the file, once", "found the end of the file, and those after", "came up short"};
  for (int kind = 0; kind < 5; ++kind) {
    for (uint64_t k = 0; k < total; ++k) {
      uint64_t n = 0;
      bool hit = false;
      string which;
      auto label = [&]() { return "operation " + S(int64_t(k)) + " " + kinds[kind] + ": " + which; };
      RecordFileReader reader;
      fsx::begin(false, [&](const fsx::Op& op) {
        fsx::Fault f;
        const bool now = n++ == k;
        if (!now && !(hit && (kind == 1 || kind == 3))) {
          return f;
        }
        if (now) {
          which = op.str();
        }
        if (kind >= 2 && op.kind != fsx::kRead) {
          return f;
        }
        hit = true;
        if (kind < 2) {
          f.fail = true;
        } else if (kind < 4) {
          f.eof = true;
        } else {
          f.partial = int64_t(op.size / 2);
        }
        return f;
      });
      Content c;
      c.status = reader.openFile(path);
      if (c.status == 0) {
        readIndexed(reader, c);
      }
      fsx::end();
      mc::transition();
      mc::count("operations made to fail");
      if (good.status != 0) {
        if (c.status == 0) {
          mc::fail("opens-only-with-failure", label());
        }
      } else if (c.status == 0) {
        // (when the description is cut short, an earlier end of the file cannot be told from the real one)
        if ((c.tags != good.tags || c.streamTags != good.streamTags) && (kind < 2 || kind > 3 || good.tags == made.tags)) {
          mc::fail("failure-hidden-tags", label());
        }
        if (c.recs.size() != good.recs.size()) {
          mc::fail("failure-hidden-records", label() + "\n" + diff(good.recs, c.recs));
        }
        for (size_t i = 0; i < c.recs.size(); ++i) {
          const Rec &x = c.recs[i], &y = good.recs[i];
          if (x.id != y.id || x.type != y.type || x.ts != y.ts || x.offset != y.offset || (x.readStatus == 0 && y.readStatus == 0 && !(x == y)) || (x.readStatus == 0) > (y.readStatus == 0)) {
            mc::fail("wrong-data-after-failure", label() + "\n" + diff(good.recs, c.recs));
          }
          if (x.readStatus == -12345) {
            mc::fail("missing-record-not-reported", label() + "\nreadRecord() gave 0, and no record: " + x.str());
          }
        }
        if (kind == 4 && c.readErrors != good.readErrors) {
          mc::fail("short-read-not-continued", label());
        }
        // the same reader, once the storage works again
        Content d;
        readIndexed(reader, d);
        if (!(d.recs == good.recs) || d.readErrors != good.readErrors) {
          mc::fail("reader-broken-after-failure", label() + "\n" + diff(good.recs, d.recs));
        }
        mc::count(c.readErrors > good.readErrors ? "failures reported by records" : "failures without consequence");
      } else {
        if (kind == 4) {
          mc::fail("short-read-not-continued", label() + "\nopen status " + S(c.status));
        }
        mc::check(!reader.isOpened(), "open-after-failure", label() + "\nopenFile() failed, and isOpened()");
        mc::count("failures reported when opening");
      }
      reader.closeFile();
      Content d;
      d.status = reader.openFile(path);
      if (d.status == 0) {
        readIndexed(reader, d);
      }
      if (!d.sameAs(good) || d.hasIndex != good.hasIndex) {
        mc::fail("reopened-reader-differs", label() + "\nstatus " + S(d.status) + "\n" + diff(good.recs, d.recs));
      }
      mc::state(mc::hashStr(which, mc::hashInt(uint64_t(kind) * 100000 + uint64_t(c.status != 0) * 1000 + uint64_t(c.readErrors), uint64_t(p.mode))));
    }
  }
  fsx::setBuffer(-1);
  mc::traceValidated();
}

} // namespace

int main(int argc, char** argv) {
  string prop = "C04";
  bool deep = false;
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
    if (string(argv[i]) == "--prop") {
      prop = argv[i + 1];
    }
  }
  const map<string, function<void(const Opt&)>> bodies = {{"C04", crashBody}, {"C05", repairBody}, {"C06", writeFaultBody}, {"C07", readFaultBody}};
  auto body = bodies.at(prop);
  const map<string, int> costs = {{"C04", 2}, {"C05", 1}, {"C06", 2}, {"C07", 2}};
  for (Mode m : {kSync, kAsync, kSplit, kChunked, kPrealloc, kSyncChunked}) {
    if (prop == "C07" && m == kChunked) {
      continue;
    }
    Opt o;
    o.mode = m;
    o.big = prop != "C07" && (m == kChunked || m == kSyncChunked);
    o.disorder = prop == "C05";
    o.maxRecs = deep || prop == "C04" || prop == "C07" ? 3 : 2;
    mc::add({modeName(m), [o, body]() { body(o); }, costs.at(prop) + (deep ? 1 : 0)});
  }
  return mc::main(argc, argv, prop.c_str());
}
