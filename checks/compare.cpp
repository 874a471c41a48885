// Checking, checksumming and comparing files (C26).
#include "mcsched.h"
#include "vrsutil.h"

#include <iostream>

#include <vrs/DataLayout.h>
#include <vrs/DataLayoutConventions.h>
#include <vrs/DataPieces.h>
#include <vrs/RecordFormat.h>
#include <vrs/utils/FilterCopy.h>
#include <vrs/utils/FilterCopyHelpers.h>
#include <vrs/utils/FilteredFileReader.h>
#include <vrs/utils/ThrottleHelpers.h>
#include <vrs/utils/Validation.h>

using namespace std;
using namespace vu;
using namespace vrs::utils;
using Info = IndexRecord::RecordInfo;

namespace {

bool deep = false;

const Type kTypes[] = {Type::DATA, Type::STATE, Type::CONFIGURATION};

sched::Config oneSchedule() {
  sched::Config cfg;
  cfg.freeSwitchAtBlock = false;
  cfg.timeoutCost = 100;
  cfg.maxSteps = 200000;
  cfg.switchCost = 100;
  return cfg;
}

// ---------- what files hold ----------
struct R {
  double ts{};
  Type type{};
  uint32_t fv{};
  vector<uint8_t> data;
  bool operator==(const R& o) const {
    return ts == o.ts && type == o.type && fv == o.fv && data == o.data;
  }
};
struct Stream {
  RecordableTypeId type{};
  string flavor, serial;
  map<string, string> tags;
  vector<R> recs; // by time
  bool operator==(const Stream& o) const {
    return type == o.type && flavor == o.flavor && serial == o.serial && tags == o.tags && recs == o.recs;
  }
};
struct File {
  map<string, string> tags;
  vector<Stream> streams;
  bool operator==(const File& o) const {
    return tags == o.tags && streams == o.streams;
  }
  void sort() {
    // (as ids are given: instances of a type in order, types by number)
    stable_sort(streams.begin(), streams.end(), [](const Stream& a, const Stream& b) { return a.type < b.type; });
    for (auto& s : streams) {
      stable_sort(s.recs.begin(), s.recs.end(), [](const R& a, const R& b) { return a.ts < b.ts; });
    }
  }
  string str() const {
    string s;
    for (auto& t : tags) {
      s += "    file tag " + t.first + "=" + t.second + "\n";
    }
    for (auto& x : streams) {
      s += "    stream " + S(int64_t(x.type)) + " " + x.flavor + " " + x.serial;
      for (auto& t : x.tags) {
        s += " [" + t.first + "=" + t.second + "]";
      }
      s += "\n";
      for (auto& r : x.recs) {
        s += "      " + string(toString(r.type)) + " t=" + F(r.ts) + " v" + S(r.fv) + " " + S(int64_t(r.data.size())) + "B:";
        for (size_t k = 0; k < r.data.size() && k < 24; ++k) {
          s += " " + S(r.data[k]);
        }
        s += "\n";
      }
    }
    return s;
  }
};

struct Source : public Dev {
  explicit Source(const Stream& s) : Dev(s.type, s.flavor) {
    getVRSTags()[Recordable::getSerialNumberTagName()] = s.serial;
    for (auto& t : s.tags) {
      setTag(t.first, t.second);
    }
  }
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
};

// The ways of writing a file
struct Mode {
  const char* name;
  CompressionPreset preset;
  int how; // 0: at once, 1: in the background, 2: chunks
  int skippedInstances;
  bool copied;
};
const vector<Mode> kModes = {
    {"plain", CompressionPreset::None, 0, 0, false},
    {"lz4", CompressionPreset::Lz4Fast, 1, 0, false},
    {"zstd chunks other instances", CompressionPreset::ZstdMedium, 2, 2, false},
    {"copied", CompressionPreset::ZstdFaster, 0, 1, true},
    {"background other instances", CompressionPreset::None, 1, 3, false},
    {"chunks", CompressionPreset::None, 2, 0, false},
};

string doWriteFile(const File& file, const Mode& m, const string& name);
// (reading and comparing make no thread)
string writeFile(const File& file, const Mode& m, const string& name) {
  if (m.how == 0 && !m.copied) {
    return doWriteFile(file, m, name);
  }
  string path;
  sched::run([&]() { path = doWriteFile(file, m, name); }, oneSchedule());
  return path;
}
string doWriteFile(const File& file, const Mode& m, const string& name) {
  Recordable::resetNewInstanceIds();
  string path = mc::scratch() + "/" + name + ".vrs";
  vector<unique_ptr<Source>> all, others;
  for (int k = 0; k < m.skippedInstances; ++k) {
    others.push_back(make_unique<Source>(Stream{RecordableTypeId::UnitTest1, "", "x", {}, {}}));
  }
  RecordFileWriter w;
  for (auto& s : file.streams) {
    all.push_back(make_unique<Source>(s));
    all.back()->setCompression(m.preset);
    w.addRecordable(all.back().get());
    others.push_back(make_unique<Source>(Stream{s.type, "", "x", {}, {}}));
    if (m.skippedInstances != 3) {
      others.pop_back();
    }
  }
  for (auto& t : file.tags) {
    w.setTag(t.first, t.second);
  }
  for (size_t k = 0; k < all.size(); ++k) {
    for (auto& r : file.streams[k].recs) {
      all[k]->create(r.ts, r.type, r.fv, r.data);
    }
  }
  if (m.how == 0) {
    mc::check(w.writeToFile(path) == 0, "harness-write");
  } else {
    if (m.how == 2) {
      w.setMaxChunkSizeMB(1); // (a unit is 1 KB here)
    }
    mc::check(w.createFileAsync(path) == 0, "harness-create");
    mc::check(w.writeRecordsAsync(1e9) == 0, "harness-records");
    mc::check(w.waitForFileClosed() == 0, "harness-close");
  }
  if (m.copied) {
    FilteredFileReader f(path);
    mc::check(f.openFile() == 0, "harness-copy-open");
    const string out = mc::scratch() + "/" + name + "-copy.vrs";
    mc::check(filterCopy(f, out, CopyOptions(false)) == 0, "harness-copy");
    f.reader.closeFile();
    path = out;
  }
  return path;
}

struct Opened {
  FilteredFileReader f;
  explicit Opened(const string& path) {
    // (a chunked file may have no name of its own on disk)
    FileSpec spec;
    mc::check(RecordFileReader::vrsFilePathToFileSpec(path, spec, true) == 0, "harness-path");
    f.setSource(spec.toPathJsonUri());
    mc::check(f.openFile() == 0, "harness-open", path);
  }
  ~Opened() {
    f.reader.closeFile();
  }
  void select(const set<int>& streams, const set<Type>& types) {
    set<StreamId> ids;
    int k = 0;
    for (auto& id : f.reader.getStreams()) {
      if (streams.count(k++)) {
        ids.insert(id);
      }
    }
    f.filter.streams = ids;
    f.filter.types = types;
  }
};

string sum(Opened& o, CheckType type = CheckType::Checksum, bool json = false) {
  CopyOptions options(false);
  options.jsonOutput = json;
  return checkRecords(o.f, options, type);
}
bool isSum(const string& s) {
  return s.size() == 16 && s.find_first_not_of("0123456789abcdef") == string::npos;
}

void compareFiles(Opened& a, Opened& b, bool equal, const function<string()>& about) {
  const CopyOptions options(false);
  if (compareVRSfiles(a.f, b.f, options) != equal) {
    mc::fail(equal ? "compare-equal-files" : "compare-different-files", about());
  }
  if (compareVRSfiles(b.f, a.f, options) != equal) {
    mc::fail(equal ? "compare-equal-files" : "compare-different-files", "in the other order\n" + about());
  }
  const string sa = sum(a), sb = sum(b);
  if (!isSum(sa) || !isSum(sb)) {
    mc::fail("no-checksum", sa + " " + sb + "\n" + about());
  }
  if ((sa == sb) != equal) {
    mc::fail(equal ? "checksum-of-equal-files" : "checksum-of-different-files", sa + " " + sb + "\n" + about());
  }
  mc::transition();
}


// ---------- files and the edits that make other files ----------
File makeFile(int maxRecords) {
  File f;
  f.tags = {{"a", "1"}, {"b", ""}};
  const int n = mc::choose(3, "streams", 1);
  const RecordableTypeId types[] = {RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest2};
  for (int k = 0; k < (n == 0 ? 2 : n == 1 ? 1 : 3); ++k) {
    Stream s;
    s.type = types[k];
    s.flavor = k == 1 ? "some/flavor" : "";
    s.serial = "serial" + S(k);
    s.tags = {{"name", "stream" + S(k)}};
    f.streams.push_back(s);
  }
  const int count = maxRecords - mc::choose(maxRecords + 1, "fewer records", 1);
  double t = 1;
  for (int k = 0; k < count; ++k) {
    auto& s = f.streams[size_t(mc::choose(int(f.streams.size()), "stream", 1))];
    R r;
    t += k == 0 ? 0 : mc::choose(2, "same time", 1) ? 0 : .5;
    r.ts = t;
    r.type = kTypes[mc::choose(3, "type", 1)];
    r.fv = 1 + uint32_t(mc::choose(2, "format", 1));
    const size_t sizes[] = {13, 0, 1, 7, 8, 16, 17, 33, 700, 2500};
    r.data = payload(sizes[mc::choose(10, "size", 1)], mc::choose(2, "same payload", 1) ? 5 : uint32_t(5 + k), Fill(k % 3));
    s.recs.push_back(r);
  }
  f.sort();
  return f;
}

struct Edit {
  string name;
  File file;
};

vector<Edit> editsOf(const File& f) {
  vector<Edit> v;
  auto add = [&](const string& name, File g) {
    g.sort();
    if (!(g == f)) {
      v.push_back({name, std::move(g)});
    }
  };
  auto tagEdits = [&](const string& name, const function<map<string, string>&(File&)>& tags) {
    File g = f;
    tags(g)["new"] = "";
    add(name + " added", g);
    g = f;
    for (auto& t : tags(g)) {
      File h = f;
      tags(h).erase(t.first);
      add(name + " removed", h);
      h = f;
      tags(h)[t.first] += "x";
      add(name + " changed", h);
      h = f;
      tags(h)[t.first] += string(1, 0);
      add(name + " zero added", h);
    }
  };
  tagEdits("file tag", [](File& g) -> map<string, string>& { return g.tags; });
  for (size_t s = 0; s < f.streams.size(); ++s) {
    const string sn = "stream " + S(int64_t(s)) + " ";
    tagEdits(sn + "tag", [s](File& g) -> map<string, string>& { return g.streams[s].tags; });
    File g = f;
    g.streams[s].flavor += "x";
    add(sn + "flavor", g);
    g = f;
    g.streams[s].serial += "x";
    add(sn + "serial", g);
    g = f;
    g.streams[s].type = RecordableTypeId::SampleDevice;
    add(sn + "recordable type", g);
    g = f;
    g.streams.erase(g.streams.begin() + long(s));
    add(sn + "removed", g);
    for (size_t k = 0; k < f.streams[s].recs.size(); ++k) {
      const string rn = sn + "record " + S(int64_t(k)) + " ";
      const R& r = f.streams[s].recs[k];
      auto with = [&](const char* name, const function<void(R&)>& change) {
        File h = f;
        change(h.streams[s].recs[k]);
        add(rn + name, h);
      };
      const size_t n = r.data.size();
      for (size_t p : set<size_t>{0, 1, 7, 8, 9, 15, 16, n / 2, n - min<size_t>(n, 9), n - min<size_t>(n, 8), n - min<size_t>(n, 2), n - min<size_t>(n, 1)}) {
        if (p < n) {
          with(("byte " + S(int64_t(p))).c_str(), [&](R& x) { x.data[p] ^= 0x80; });
        }
      }
      if (n > 0) {
        with("shorter", [](R& x) { x.data.pop_back(); });
        with("all bytes", [](R& x) {
          for (auto& b : x.data) {
            b = uint8_t(~b);
          }
        });
      }
      with("longer", [](R& x) { x.data.push_back(0); });
      with("a little later", [](R& x) { x.ts = nextafter(x.ts, 1e9); });
      with("earlier", [](R& x) { x.ts -= .5; });
      with("much later", [](R& x) { x.ts += 10; });
      with("other type", [](R& x) { x.type = x.type == Type::DATA ? Type::STATE : x.type == Type::STATE ? Type::CONFIGURATION : Type::DATA; });
      with("another type", [](R& x) { x.type = x.type == Type::DATA ? Type::CONFIGURATION : x.type == Type::STATE ? Type::DATA : Type::STATE; });
      with("format version", [](R& x) { ++x.fv; });
      File h = f;
      h.streams[s].recs.erase(h.streams[s].recs.begin() + long(k));
      add(rn + "removed", h);
      h = f;
      h.streams[s].recs.insert(h.streams[s].recs.begin() + long(k), r);
      add(rn + "twice", h);
      h = f;
      h.streams[s].recs.push_back(r);
      h.streams[s].recs.back().ts += 100;
      add(rn + "again, later", h);
      for (size_t o = 0; o < f.streams.size(); ++o) {
        if (o != s) {
          h = f;
          h.streams[s].recs.erase(h.streams[s].recs.begin() + long(k));
          h.streams[o].recs.push_back(r);
          add(rn + "in stream " + S(int64_t(o)), h);
        }
      }
      for (size_t o = k + 1; o < f.streams[s].recs.size(); ++o) {
        h = f;
        swap(h.streams[s].recs[k].data, h.streams[s].recs[o].data);
        add(rn + "swapped payload with " + S(int64_t(o)), h);
      }
      if (k + 1 < f.streams[s].recs.size() && n > 0) {
        // the same bytes, cut elsewhere
        h = f;
        auto& next = h.streams[s].recs[k + 1].data;
        next.insert(next.begin(), r.data.back());
        h.streams[s].recs[k].data.pop_back();
        add(rn + "last byte in the next one", h);
      }
    }
  }
  for (RecordableTypeId type : {RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest2, RecordableTypeId::SampleDevice}) {
    File g = f;
    g.streams.push_back({type, "", "more", {}, {}});
    add("stream added", g);
  }
  if (f.streams.size() > 1 && f.streams[0].type == f.streams[1].type) {
    File g = f;
    swap(g.streams[0], g.streams[1]);
    add("streams swapped", g);
  }
  return v;
}

// Same content, written in two ways
void sameBody() {
  cleanScratch();
  {
    const File f = makeFile(deep ? 4 : 3);
    const int mode = mc::choose(int(kModes.size()), "mode");
    const Mode& m1 = kModes[size_t(mode)];
    const Mode& m2 = kModes[size_t(mode + mc::choose(int(kModes.size()) - mode, "other mode"))];
    auto about = [&]() { return string(m1.name) + " and " + m2.name + "\n" + f.str(); };
    const string p1 = writeFile(f, m1, "one"), p2 = writeFile(f, m2, "two");
    Opened a(p1), b(p2);
    compareFiles(a, b, true, about);
    {
      Opened again(p1);
      compareFiles(a, again, true, about);
    }
    size_t records = 0;
    uint64_t h = 3;
    for (auto& s : f.streams) {
      records += s.recs.size();
      for (auto& r : s.recs) {
        h = mc::hashBytes(r.data.data(), r.data.size(), mc::hashBytes(&r.ts, 8, h + uint64_t(r.type)));
      }
    }
    mc::state(h);
    const string text = sum(a, CheckType::Check);
    if (text.find("Checked " + S(int64_t(records)) + " records") != 0 || text.find(", no errors.") == string::npos) {
      mc::fail("check-good-file", text + "\n" + about());
    }
    const string json = sum(b, CheckType::Check, true);
    if (json.find("\"good_file\":true") == string::npos || json.find("\"record_count\":" + S(int64_t(records)) + ",") == string::npos) {
      mc::fail("check-good-file-json", json + "\n" + about());
    }
    // each component has its checksum, and all of them together the one of the file
    const string total = sum(a);
    const string list = sum(a, CheckType::Checksums);
    if (list.size() < total.size() || list.compare(list.size() - total.size(), total.size(), total) != 0) {
      mc::fail("checksums", list + "\n" + total + "\n" + about());
    }
    const string jsum = sum(a, CheckType::Checksum, true), jlist = sum(a, CheckType::Checksums, true);
    mc::check(jsum.find("\"checksum\":\"" + total + "\"") != string::npos && jlist.find("\"checksum\":\"" + total + "\"") != string::npos, "checksum-json", jsum + jlist);
    FileSpec spec;
    RecordFileReader::vrsFilePathToFileSpec(p1, spec, true);
    mc::check(recordsChecksum(spec.toPathJsonUri(), false) == total, "records-checksum");
    mc::traceValidated();
  }
}

// One thing is different
void editBody() {
  cleanScratch();
  {
    const File f = makeFile(deep ? 4 : 3);
    const vector<Edit> edits = editsOf(f);
    const Mode& m1 = kModes[size_t(mc::choose(deep ? 3 : 1, "mode", 1))];
    const string p1 = writeFile(f, m1, "one");
    Opened a(p1);
    map<string, string> sums = {{sum(a), "original"}};
    const Mode& m2 = mc::pick(kModes, "other mode", 1);
    for (const Edit& e : edits) {
      auto about = [&]() { return e.name + ", " + m1.name + " and " + m2.name + "\n" + f.str() + "  and\n" + e.file.str(); };
      const string p2 = writeFile(e.file, m2, "two");
      {
        Opened b(p2);
        compareFiles(a, b, false, about);
        mc::check(sum(b, CheckType::Checksums) != sum(a, CheckType::Checksums), "checksums-of-different-files");
      }
      mc::state(mc::hashBytes(e.name.data(), e.name.size(), e.file.streams.size()));
    }
    mc::traceValidated();
  }
}

// ---------- parts of files ----------
bool inPart(const R& r, const set<Type>& types, double lo, double hi) {
  return types.count(r.type) && r.ts > lo && r.ts <= hi;
}
// What a filter leaves of a file: the latest configuration and state before the range, and what is in it
File partOf(const File& f, const set<int>& streams, const set<Type>& types, double lo, double hi) {
  File g;
  g.tags = f.tags;
  for (size_t s = 0; s < f.streams.size(); ++s) {
    if (!streams.count(int(s))) {
      continue;
    }
    Stream x = f.streams[s];
    x.recs.clear();
    map<Type, size_t> latest;
    for (size_t k = 0; k < f.streams[s].recs.size(); ++k) {
      const R& r = f.streams[s].recs[k];
      if (r.type != Type::DATA && r.ts <= lo && types.count(r.type)) {
        latest[r.type] = k;
      }
    }
    for (size_t k = 0; k < f.streams[s].recs.size(); ++k) {
      const R& r = f.streams[s].recs[k];
      auto it = latest.find(r.type);
      if (inPart(r, types, lo, hi) || (it != latest.end() && it->second == k)) {
        x.recs.push_back(r);
      }
    }
    g.streams.push_back(x);
  }
  return g;
}

void partBody() {
  cleanScratch();
  {
    const File f = makeFile(deep ? 4 : 3);
    const vector<Edit> edits = editsOf(f);
    const string p1 = writeFile(f, kModes[0], "one");
    Opened a(p1);
    const int n = int(f.streams.size());
    const set<Type> all = {Type::CONFIGURATION, Type::STATE, Type::DATA};
    struct Part {
      set<int> streams;
      set<Type> types;
      double lo, hi;
    };
    const double low = numeric_limits<double>::lowest(), high = numeric_limits<double>::max();
    vector<Part> parts;
    set<int> every;
    for (int k = 0; k < n; ++k) {
      every.insert(k);
      parts.push_back({{k}, all, low, high});
    }
    for (Type t : kTypes) {
      parts.push_back({every, {t}, low, high});
    }
    parts.push_back({every, all, 1.25, high});
    parts.push_back({every, all, low, 1.25});
    parts.push_back({every, all, 1, 1.5});
    parts.push_back({{0}, {Type::DATA}, 1, 1.5});
    parts.push_back({every, {Type::STATE, Type::CONFIGURATION}, 1.25, 20});
    for (const Edit& e : edits) {
      if (e.file.streams.size() != f.streams.size() || (!deep && e.name.find("byte ") != string::npos && e.name.find("byte 0") == string::npos)) {
        continue;
      }
      bool sameTypes = true;
      for (size_t k = 0; k < f.streams.size(); ++k) {
        sameTypes &= e.file.streams[k].type == f.streams[k].type;
      }
      if (!sameTypes) {
        continue;
      }
      const string p2 = writeFile(e.file, kModes[0], "two");
      Opened b(p2);
      for (const Part& p : parts) {
        const File fa = partOf(f, p.streams, p.types, p.lo, p.hi), fb = partOf(e.file, p.streams, p.types, p.lo, p.hi);
        for (Opened* o : {&a, &b}) {
          o->select(p.streams, p.types);
          o->f.filter.minTime = p.lo;
          o->f.filter.maxTime = p.hi;
        }
        // (when no record at all is after the range's start, there may be no configuration or state to look at)
        auto someAfter = [&](const File& x) {
          for (auto& s : x.streams) {
            for (auto& r : s.recs) {
              if (r.ts > p.lo) {
                return true;
              }
            }
          }
          return false;
        };
        if (!someAfter(f) || !someAfter(e.file)) {
          continue;
        }
        compareFiles(a, b, fa == fb, [&]() {
          string s = e.name + ", streams";
          for (int k : p.streams) {
            s += " " + S(k);
          }
          for (Type t : p.types) {
            s += string(" ") + toString(t);
          }
          return s + " " + F(p.lo) + " to " + F(p.hi) + "\n" + f.str() + "  and\n" + e.file.str() + "  parts\n" + fa.str() + "  and\n" + fb.str();
        });
      }
      mc::state(mc::hashBytes(e.name.data(), e.name.size(), 1));
    }
    mc::traceValidated();
  }
}

// ---------- damaged files ----------
void damagedBody() {
  cleanScratch();
  {
    File f = makeFile(3);
    const Mode& m = kModes[size_t(mc::choose(3, "mode"))];
    const string p1 = writeFile(f, kModes[0], "good"), p2 = writeFile(f, m, "bad");
    FileSpec spec;
    RecordFileReader::vrsFilePathToFileSpec(p2, spec, true);
    vector<uint8_t> bytes;
    // cut the last chunk anywhere, when the index still tells what should be there
    const string last = spec.chunks.back();
    slurp(last, bytes);
    Opened good(p1);
    const CopyOptions options(false);
    const string rightSum = sum(good);
    for (size_t cut = 0; cut < bytes.size(); ++cut) {
      if (cut > 64 && cut + 64 < bytes.size() && cut % 61 != 0) {
        continue;
      }
      spit(last, bytes.data(), cut);
      FilteredFileReader b;
      b.setSource(spec.toPathJsonUri());
      if (b.openFile() != 0) {
        continue;
      }
      // does it still hold everything?
      Content c;
      readIndexed(b.reader, c);
      size_t total = c.recs.size();
      const string check = checkRecords(b, options, CheckType::Check);
      const bool saysGood = check.find(", no errors.") != string::npos;
      if (saysGood != (c.readErrors == 0)) {
        mc::fail("check-damaged-file", check + ", " + S(c.readErrors) + " records out of " + S(int64_t(total)) + " can't be read, cut at " + S(int64_t(cut)) + " " + m.name + "\n" + f.str());
      }
      CopyOptions json(false);
      json.jsonOutput = true;
      const string jcheck = checkRecords(b, json, CheckType::Check);
      mc::check((jcheck.find("\"good_file\":true") != string::npos) == (c.readErrors == 0), "check-damaged-file-json", jcheck);
      const string s = checkRecords(b, options, CheckType::Checksum);
      if (c.readErrors != 0 ? isSum(s) : !isSum(s)) {
        mc::fail("checksum-damaged-file", s + ", " + S(c.readErrors) + " can't be read, cut at " + S(int64_t(cut)) + " " + m.name + "\n" + f.str());
      }
      File left = f;
      bool whole = c.readErrors == 0;
      size_t want = 0;
      for (auto& x : f.streams) {
        want += x.recs.size();
      }
      whole &= want == total && c.tags == good.f.reader.getTags() && c.streamTags.size() == good.f.reader.getStreams().size();
      if (whole) {
        auto it = c.streamTags.begin();
        for (auto& id : good.f.reader.getStreams()) {
          whole &= it->second == good.f.reader.getTags(id);
          ++it;
        }
      }
      if (whole != (s == rightSum)) {
        mc::fail("checksum-of-what-is-left", s + " right one " + rightSum + ", " + S(int64_t(total)) + " records of " + S(int64_t(want)) + " cut at " + S(int64_t(cut)) + " " + m.name + "\n" + f.str());
      }
      const bool e1 = compareVRSfiles(good.f, b, options), e2 = compareVRSfiles(b, good.f, options);
      if (e1 != whole || e2 != whole) {
        mc::fail("compare-damaged-file", S(e1) + S(e2) + ", " + S(int64_t(total)) + " records of " + S(int64_t(want)) + ", " + S(c.readErrors) + " can't be read, cut at " + S(int64_t(cut)) + " " + m.name + "\n" + f.str());
      }
      b.reader.closeFile();
      mc::transition();
      mc::state(mc::hashInt(cut, uint64_t(c.readErrors * 100 + int(total))));
    }
    mc::traceValidated();
  }
}

// ---------- decoding ----------
struct Layout : public AutoDataLayout {
  DataPieceValue<uint32_t> a{"a"};
  DataPieceString s{"s"};
  AutoDataLayoutEnd end;
};

struct Decoded : public Source {
  explicit Decoded(const Stream& s) : Source(s) {
    addRecordFormat(Type::DATA, 1, ContentBlock(ImageFormat::RAW) + ContentBlock(), {});
    Layout l;
    addRecordFormat(Type::DATA, 2, l.getContentBlock(), {&l});
    addRecordFormat(Type::DATA, 3, l.getContentBlock() + ContentBlock(PixelFormat::GREY8, 4, 3), {&l});
    addRecordFormat(Type::CONFIGURATION, 1, l.getContentBlock(), {&l});
    addRecordFormat(Type::DATA, 4, ContentBlock(ContentType::CUSTOM, 5), {});
    addRecordFormat(Type::DATA, 5, ContentBlock(ContentType::CUSTOM), {});
    addRecordFormat(Type::DATA, 6, ContentBlock(ContentType::EMPTY), {});
  }
};

void decodeBody() {
  cleanScratch();
  {
    const string path = mc::scratch() + "/decode.vrs";
    Recordable::resetNewInstanceIds();
    const int n = mc::choose(deep ? 4 : 3, "records");
    Layout l;
    const size_t fixed = l.getFixedDataSizeNeeded();
    size_t errors = 0, images = 0;
    string what;
    {
      Decoded s({RecordableTypeId::UnitTest1, "", "s", {}, {}});
      RecordFileWriter w;
      w.addRecordable(&s);
      for (int k = 0; k < n; ++k) {
        const uint32_t fv = uint32_t(1 + mc::choose(7, "format"));
        const int extra = mc::choose(3, "size") == 0 ? 0 : mc::choose(2, "less") ? -1 : 1;
        int size = 0;
        bool good = true, image = false;
        switch (fv) {
          case 1: // (an image without a format that tells its size: everything that's there)
            size = 6 + extra;
            good = false;
            break;
          case 2:
            size = int(fixed) + extra;
            good = extra == 0;
            break;
          case 3:
            size = int(fixed) + 12 + extra;
            good = extra == 0;
            // the image is read whole when there is something left to spare
            image = extra >= 0;
            break;
          case 4:
            size = 5 + extra;
            good = extra == 0;
            break;
          case 5:
            size = 5 + extra;
            break;
          case 6:
            size = extra < 0 ? 0 : extra;
            good = size == 0;
            break;
          default: // no format
            size = 5 * (extra + 1);
            good = size == 0;
        }
        if (fv == 1) {
          continue;
        }
        vector<uint8_t> data(static_cast<size_t>(size), 0);
        s.create(k, Type::DATA, fv, data);
        errors += !good;
        images += image;
        what += " v" + S(fv) + "/" + S(size) + (good ? " good" : " bad");
      }
      mc::check(w.writeToFile(path) == 0, "harness-write");
    }
    Opened o(path);
    const size_t total = o.f.reader.getIndex().size();
    const string text = sum(o, CheckType::Decode);
    const string want = errors == 0 ? "Decoded " + S(int64_t(total)) + " records, " + S(int64_t(images)) + " images" : "Failure! Decoded " + S(int64_t(total - errors)) + " records out of " + S(int64_t(total)) + ",";
    if (text.find(want) != 0 || (text.find("no errors.") != string::npos) != (errors == 0)) {
      mc::fail("decode", text + "\n  expected " + want + "\n " + what);
    }
    mc::state(mc::hashBytes(what.data(), what.size()));
    mc::transition();
    mc::traceValidated();
  }
}

// ---------- bytes ----------
FileSpec makeChunks(const vector<uint8_t>& data, const vector<size_t>& cuts, const string& name) {
  FileSpec spec;
  size_t start = 0;
  int k = 0;
  for (size_t c : cuts) {
    spec.chunks.push_back(mc::scratch() + "/" + name + S(k++));
    spit(spec.chunks.back(), data.data() + start, c - start);
    start = c;
  }
  spec.chunks.push_back(mc::scratch() + "/" + name + S(k++));
  spit(spec.chunks.back(), data.data() + start, data.size() - start);
  return spec;
}

void bytesBody(bool big) {
  cleanScratch();
  const size_t unit = kDownloadChunkSize;
  size_t n = 0;
  if (big) {
    const size_t sizes[] = {unit - 1, unit, unit + 1, 2 * unit + 5};
    n = sizes[mc::choose(deep ? 4 : 3, "size")];
  } else {
    n = size_t(mc::choose(deep ? 41 : 35, "size"));
  }
  const vector<uint8_t> data = payload(n, 3);
  vector<size_t> cuts;
  if (big) {
    const int c = mc::choose(3, "cut");
    if (c > 0) {
      cuts.push_back(c == 1 ? unit - 2 : n / 2);
    }
  } else {
    const size_t c = size_t(mc::choose(int(n) + 2, "cut"));
    if (c <= n && c > 0 && c < n) {
      cuts.push_back(c);
    }
  }
  const FileSpec one = makeChunks(data, {}, "one"), two = makeChunks(data, cuts, "two");
  auto equal = [&](const FileSpec& a, const FileSpec& b, bool want, const string& about) {
    if (compareVerbatim(a, b, false) != want || compareVerbatim(b, a, false) != want) {
      mc::fail(want ? "verbatim-equal" : "verbatim-different", S(int64_t(n)) + " bytes " + about);
    }
    const string sa = verbatimChecksum(a.toPathJsonUri(), false), sb = verbatimChecksum(b.toPathJsonUri(), false);
    if (!isSum(sa) || !isSum(sb) || (sa == sb) != want) {
      mc::fail(want ? "verbatim-checksum-equal" : "verbatim-checksum-different", sa + " " + sb + " " + S(int64_t(n)) + " bytes " + about);
    }
    mc::transition();
  };
  equal(one, two, true, "same");
  set<size_t> where;
  if (big) {
    where = {0, unit - 2, unit - 1, unit, n - 1};
  } else {
    for (size_t k = 0; k < n; ++k) {
      where.insert(k);
    }
  }
  for (size_t p : where) {
    if (p < n) {
      auto other = data;
      other[p] ^= 1;
      equal(one, makeChunks(other, cuts, "other"), false, "differ at " + S(int64_t(p)));
    }
  }
  auto longer = data;
  longer.push_back(0);
  equal(one, makeChunks(longer, cuts, "other"), false, "one more");
  if (n > 0 && (cuts.empty() || cuts.back() < n)) {
    longer = data;
    longer.pop_back();
    equal(one, makeChunks(longer, cuts, "other"), false, "one less");
  }
  if (!big && n > 0) {
    auto other = data;
    for (auto& b : other) {
      b = uint8_t(~b);
    }
    equal(one, makeChunks(other, cuts, "other"), false, "all bytes");
  }
  mc::state(mc::hashInt(n, cuts.empty() ? 0 : cuts[0]));
  mc::traceValidated();
}

} // namespace

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
  }
  if (getenv("MC_LOG") == nullptr) {
    cerr.setstate(ios::failbit);
    cout.setstate(ios::failbit);
  }
  mc::add({"same", sameBody, deep ? 4 : 2});
  mc::add({"edit", editBody, deep ? 3 : 2});
  mc::add({"part", partBody, deep ? 3 : 2});
  mc::add({"damaged", damagedBody, deep ? 3 : 2});
  mc::add({"decode", decodeBody});
  mc::add({"bytes", []() { bytesBody(false); }});
  mc::add({"bytes-big", []() { bytesBody(true); }});
  return mc::main(argc, argv, "C26");
}
