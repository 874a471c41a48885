// Selecting records of a file, copying and merging them (C12).
#include "mcsched.h"
#include "vrsutil.h"

#include <iostream>

#include <vrs/DataLayout.h>
#include <vrs/DataPieces.h>
#include <vrs/RecordFormat.h>
#include <vrs/RecordFormatStreamPlayer.h>
#include <vrs/utils/FilterCopy.h>
#include <vrs/utils/FilterCopyHelpers.h>
#include <vrs/utils/FilteredFileReader.h>
#include <vrs/utils/cli/DefaultDecimator.h>
#include <vrs/utils/cli/MakeZeroFilterCopier.h>

using namespace std;
using namespace vu;
using namespace vrs::utils;
using Info = IndexRecord::RecordInfo;

namespace {

bool deep = false;

const Type kTypes[] = {Type::CONFIGURATION, Type::STATE, Type::DATA};

// A stream whose records are only those asked for.
struct Source : public Dev {
  explicit Source(RecordableTypeId type, const string& flavor = {}) : Dev(type, flavor) {}
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
};

string infos(const vector<const Info*>& v) {
  string s;
  for (auto* r : v) {
    s += "    " + r->streamId.getNumericName() + " " + toString(r->recordType) + " t=" + F(r->timestamp) + " @" + S(r->fileOffset) + "\n";
  }
  return s;
}

// ---------- what a filter selects, from its documentation ----------
struct Times {
  enum Kind { kNone, kAbs, kRel };
  Kind minKind = kNone;
  double min = 0;
  Kind maxKind = kNone;
  double max = 0;
  bool around = false; // min is the center, max the diameter
  void apply(FilteredFileReader& f) const {
    f.filter.relativeMinTime = f.filter.relativeMaxTime = f.filter.aroundTime = false;
    f.filter.minTime = numeric_limits<double>::lowest();
    f.filter.maxTime = numeric_limits<double>::max();
    if (minKind != kNone) {
      f.setMinTime(min, minKind == kRel);
    }
    if (around) {
      f.filter.maxTime = max;
      f.filter.aroundTime = true;
    } else if (maxKind != kNone) {
      f.setMaxTime(max, maxKind == kRel);
    }
  }
  string str() const {
    auto one = [](Kind k, double v) { return k == kNone ? string("-") : (k == kRel ? string("relative ") : string()) + F(v); };
    return "min " + one(minKind, min) + (around ? " diameter " + F(max) : " max " + one(maxKind, max));
  }
};

struct Selection {
  bool known = true; // false: relative to data records that don't exist
  bool valid = true;
  double lo = 0, hi = 0; // the range
  double start = 0, end = 0; // of data records
  vector<const Info*> before, in;
  bool afterMin = false; // some record, of any kind, is after the minimum time
};

template <class Index>
Selection selection(const Index& index, const set<StreamId>& streams, const set<Type>& types, const Times& t, bool firstOnly, const set<const Info*>* skip = nullptr) {
  Selection s;
  s.start = numeric_limits<double>::max();
  s.end = numeric_limits<double>::lowest();
  for (auto& r : index) {
    if (r.recordType == Type::DATA && streams.count(r.streamId)) {
      s.start = min(s.start, r.timestamp);
      s.end = max(s.end, r.timestamp);
    }
  }
  s.lo = numeric_limits<double>::lowest();
  s.hi = numeric_limits<double>::max();
  auto rel = [&](double v) { return v + (v < 0 ? s.end : s.start); };
  if (s.start > s.end && (t.minKind == Times::kRel || t.maxKind == Times::kRel)) {
    s.known = false;
    return s;
  }
  if (t.minKind != Times::kNone) {
    s.lo = t.minKind == Times::kRel ? rel(t.min) : t.min;
  }
  if (t.around) {
    const double c = s.lo;
    s.lo = c - fabs(t.max) / 2;
    s.hi = c + fabs(t.max) / 2;
  } else if (t.maxKind != Times::kNone) {
    s.hi = t.maxKind == Times::kRel ? rel(t.max) : t.max;
  }
  s.valid = s.lo <= s.hi;
  if (!s.valid) {
    return s;
  }
  map<pair<StreamId, Type>, const Info*> latest;
  set<pair<StreamId, Type>> seen;
  for (auto& r : index) {
    s.afterMin |= r.timestamp > s.lo;
    if (!streams.count(r.streamId) || !types.count(r.recordType)) {
      continue;
    }
    if (r.timestamp <= s.lo) { // (the minimum itself is excluded, the maximum isn't)
      if (r.recordType != Type::DATA) {
        latest[{r.streamId, r.recordType}] = &r;
      }
    } else if (r.timestamp <= s.hi) {
      if (firstOnly && !seen.insert({r.streamId, r.recordType}).second) {
        continue;
      }
      if (skip == nullptr || !skip->count(&r)) {
        s.in.push_back(&r);
      }
    }
  }
  for (auto& r : index) {
    if (latest.count({r.streamId, r.recordType}) && latest[{r.streamId, r.recordType}] == &r) {
      s.before.push_back(&r);
    }
  }
  return s;
}

// ---------- selecting ----------
struct Ids {
  StreamId a, b, c;
};

// Writes n records chosen among streams, types, and time steps
string makeFile(int n, int streams, Ids& ids, vector<Rec>* made = nullptr) {
  const string path = cleanScratch() + "/source.vrs";
  Recordable::resetNewInstanceIds();
  Source a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest1), c(RecordableTypeId::UnitTest2, "some/flavor");
  Source* all[] = {&a, &b, &c};
  RecordFileWriter w;
  for (int k = 0; k < streams; ++k) {
    w.addRecordable(all[k]);
  }
  double t = 1;
  for (int k = 0; k < n; ++k) {
    Source* s = all[mc::choose(streams, "stream")];
    const Type type = kTypes[mc::choose(3, "type")];
    if (k > 0) {
      t += mc::choose(2, "step");
    }
    s->create(t, type, uint32_t(k), payload(size_t(4 + k), uint32_t(k)));
  }
  mc::check(w.writeToFile(path) == 0, "harness-write");
  ids = {a.getStreamId(), b.getStreamId(), c.getStreamId()};
  if (made != nullptr) {
    for (auto* s : all) {
      made->insert(made->end(), s->made.begin(), s->made.end());
    }
  }
  return path;
}

struct Counter : public StreamPlayer {
  vector<Rec>* out;
  vector<uint8_t> buf;
  bool processRecordHeader(const CurrentRecord& r, DataReference& ref) override {
    buf.resize(r.recordSize);
    ref.useVector(buf);
    return true;
  }
  void processRecord(const CurrentRecord& r, uint32_t) override {
    Rec x;
    x.id = r.streamId;
    x.type = r.recordType;
    x.ts = r.timestamp;
    x.fv = r.formatVersion;
    x.data = buf;
    out->push_back(std::move(x));
  }
};

struct SkippingDecimator : public Decimator {
  set<const Info*> skip;
  int resets = 0, flushes = 0;
  void reset() override {
    ++resets;
  }
  bool decimate(RecordReaderFunc&, ThrottledWriter*, const Info& r, bool&) override {
    return skip.count(&r) != 0;
  }
  void flush(RecordReaderFunc&, ThrottledWriter*) override {
    ++flushes;
  }
  double getGraceWindow() const override {
    return 0;
  }
};

void compareSelection(FilteredFileReader& f, const Selection& want, const Times& t, bool firstOnly, const char* what) {
  vector<const Info*> before, in;
  double start = 0, end = 0;
  f.getConstrainedTimeRange(start, end);
  auto about = [&]() {
    string s = string(what) + ": " + t.str() + (firstOnly ? " first only" : "") + " streams";
    for (auto& id : f.filter.streams) {
      s += " " + id.getNumericName();
    }
    s += " types";
    for (auto& x : f.filter.types) {
      s += string(" ") + toString(x);
    }
    s += "\n  file:\n";
    vector<const Info*> all;
    for (auto& r : f.reader.getIndex()) {
      all.push_back(&r);
    }
    return s + infos(all) + "  expected before:\n" + infos(want.before) + "  expected in range:\n" + infos(want.in) + "  got before:\n" + infos(before) + "  got in range:\n" + infos(in);
  };
  if (f.timeRangeValid() != (want.valid || f.reader.getIndex().empty())) {
    mc::fail("time-range-valid", about());
  }
  f.preRollConfigAndState([&](RecordFileReader&, const Info& r) {
    before.push_back(&r);
    return true;
  });
  f.iterateAdvanced([&](RecordFileReader&, const Info& r) {
    in.push_back(&r);
    return true;
  });
  if (in != want.in) {
    mc::fail("selected", about());
  }
  // (when no record at all follows, there is nothing to prepare for)
  if (before != want.before && !(before.empty() && !want.afterMin)) {
    mc::fail("records-before", about());
  }
  if (want.valid && (start != max(want.start, want.lo) || end != min(want.end, want.hi))) {
    mc::fail("time-range", "[" + F(start) + ", " + F(end) + "], expected [" + F(max(want.start, want.lo)) + ", " + F(min(want.end, want.hi)) + "] " + about());
  }
  auto index = f.buildIndex();
  before.insert(before.end(), in.begin(), in.end());
  bool same = index->size() == before.size();
  int64_t pos = 0;
  for (size_t k = 0; same && k < before.size(); ++k) {
    const auto& d = (*index)[k];
    const Info& r = *before[k];
    same = d.timestamp == r.timestamp && d.getStreamId() == r.streamId && d.getRecordType() == r.recordType && uint32_t(d.recordSize) == uint32_t(r.fileOffset - pos);
    pos = r.fileOffset;
  }
  if (!same) {
    mc::fail("built-index", about());
  }
  mc::transition();
}

vector<Times> timeSettings(double last, bool all) {
  vector<Times> v;
  vector<pair<Times::Kind, double>> mins, maxs;
  mins.push_back({Times::kNone, 0});
  maxs.push_back({Times::kNone, 0});
  for (double x = 0.5; x <= last + .5; x += all ? .5 : 1) {
    mins.push_back({Times::kAbs, x});
    maxs.push_back({Times::kAbs, x});
  }
  for (double x = all ? -last : -1; x <= (all ? last : 1); x += all ? .5 : 1) {
    mins.push_back({Times::kRel, x});
    maxs.push_back({Times::kRel, x});
  }
  for (auto& m : mins) {
    for (auto& x : maxs) {
      Times t;
      t.minKind = m.first;
      t.min = m.second;
      t.maxKind = x.first;
      t.max = x.second;
      v.push_back(t);
    }
    if (m.first != Times::kNone) {
      for (double d : {0., 1., -2., 3.}) {
        Times t;
        t.minKind = m.first;
        t.min = m.second;
        t.around = true;
        t.max = d;
        v.push_back(t);
      }
    }
  }
  return v;
}

void selectBody(int n, int streams, bool all) {
  Ids ids;
  vector<Rec> made;
  const string path = makeFile(n, streams, ids, &made);
  FilteredFileReader f(path);
  mc::check(f.openFile() == 0, "harness-open");
  mc::check(f.filter.streams == f.reader.getStreams() && f.filter.types == set<Type>({Type::CONFIGURATION, Type::STATE, Type::DATA}), "default-filter");
  const auto& index = f.reader.getIndex();
  mc::check(index.size() == size_t(n), "harness-index");
  mc::state(hashRecs(made));
  const StreamId sid[] = {ids.a, ids.b, ids.c};
  double last = 1;
  for (auto& r : index) {
    last = max(last, r.timestamp);
  }
  const auto settings = timeSettings(last, all);
  for (int sm = 0; sm < 1 << streams; ++sm) {
    f.filter.streams.clear();
    for (int k = 0; k < streams; ++k) {
      if (sm >> k & 1) {
        f.filter.streams.insert(sid[k]);
      }
    }
    for (int tm = 0; tm < 8; ++tm) {
      f.filter.types.clear();
      for (int k = 0; k < 3; ++k) {
        if (tm >> k & 1) {
          f.filter.types.insert(kTypes[k]);
        }
      }
      for (auto& t : settings) {
        Selection s;
        for (bool first : {false, true}) {
          s = selection(index, f.filter.streams, f.filter.types, t, first);
          if (!s.known) {
            break;
          }
          f.firstRecordsOnly = first;
          t.apply(f);
          compareSelection(f, s, t, first, "filter");
        }
        f.firstRecordsOnly = false;
      }
    }
  }
  // custom filters and decimators: each subset of the records
  f.filter.streams = f.reader.getStreams();
  f.filter.types = {Type::CONFIGURATION, Type::STATE, Type::DATA};
  for (int mask = 0; mask < 1 << n; ++mask) {
    set<const Info*> skip;
    for (int k = 0; k < n; ++k) {
      if (mask >> k & 1) {
        skip.insert(&index[size_t(k)]);
      }
    }
    for (bool first : {false, true}) {
      Times t;
      t.minKind = Times::kAbs;
      t.min = last > 1 ? 1 : 0;
      f.firstRecordsOnly = first;
      Selection s = selection(index, f.filter.streams, f.filter.types, t, first, &skip);
      t.apply(f);
      f.skipRecordFilter = [&](const Info& r) { return skip.count(&r) != 0; };
      compareSelection(f, s, t, first, "custom filter");
      f.skipRecordFilter = nullptr;
      auto d = make_unique<SkippingDecimator>();
      d->skip = skip;
      auto* dp = d.get();
      f.decimator_ = std::move(d);
      t.apply(f);
      compareSelection(f, s, t, first, "decimator");
      mc::check(dp->resets == 2 && (dp->flushes == 2 || !s.afterMin), "decimator-hooks", S(dp->resets) + " resets, " + S(dp->flushes) + " flushes");
      f.decimator_.reset();
    }
    f.firstRecordsOnly = false;
  }
  // reading stops when asked to
  for (int stop = 1; stop <= n; ++stop) {
    Times().apply(f);
    int k = 0;
    f.iterateAdvanced([&](RecordFileReader&, const Info& r) {
      mc::check(&r == &index[size_t(k)], "stop-order");
      return ++k < stop;
    });
    mc::check(k == stop, "stops-when-asked", S(k) + " records read, asked to stop after " + S(stop));
  }
  // and really reading
  for (auto& t : timeSettings(last, false)) {
    Selection s = selection(index, f.filter.streams, f.filter.types, t, false);
    if (!s.known) {
      continue;
    }
    t.apply(f);
    vector<Rec> got;
    list<Counter> players;
    for (auto& id : f.filter.streams) {
      players.emplace_back();
      players.back().out = &got;
      f.reader.setStreamPlayer(id, &players.back());
    }
    uint32_t count = f.iterateSafe();
    vector<const Info*> want = s.afterMin ? s.before : vector<const Info*>();
    if (!s.afterMin && got.size() == s.before.size()) {
      want = s.before;
    }
    want.insert(want.end(), s.in.begin(), s.in.end());
    bool same = count == s.in.size() && got.size() == want.size();
    for (size_t k = 0; same && k < got.size(); ++k) {
      auto& r = got[k];
      same = r.id == want[k]->streamId && r.type == want[k]->recordType && r.ts == want[k]->timestamp && r.fv < made.size() && r.data == payload(4 + r.fv, r.fv);
    }
    if (!same) {
      mc::fail("records-read", t.str() + " counted " + S(count) + " expected\n" + infos(want) + "got\n" + str(got));
    }
  }
  f.reader.closeFile();
}

// ---------- selecting streams and types by name ----------
void namesBody() {
  const string path = cleanScratch() + "/names.vrs";
  Recordable::resetNewInstanceIds();
  Source a(RecordableTypeId::UnitTest1, "one"), b(RecordableTypeId::UnitTest1, "two/words"), c(RecordableTypeId::UnitTest2, "one"), d(RecordableTypeId::UnitTest1, "one");
  Source* all[] = {&a, &b, &c, &d};
  {
    RecordFileWriter w;
    for (auto* s : all) {
      w.addRecordable(s);
      s->create(1, Type::DATA, 1, payload(5, 1));
    }
    mc::check(w.writeToFile(path) == 0, "harness-write");
  }
  const string t1 = S(int64_t(RecordableTypeId::UnitTest1)), t2 = S(int64_t(RecordableTypeId::UnitTest2));
  const StreamId A = a.getStreamId(), B = b.getStreamId(), C = c.getStreamId(), D = d.getStreamId();
  struct Name {
    string text;
    set<StreamId> ids;
  };
  const vector<Name> names = {
      {A.getNumericName(), {A}},
      {B.getNumericName(), {B}},
      {C.getNumericName(), {C}},
      {t1 + "+1", {A}},
      {t1 + "+3", {D}},
      {t1 + "+4", {}},
      {t2 + "+1", {C}},
      {t1, {A, B, D}},
      {t2 + "-", {C}},
      {t1 + "-", {A, B, D}},
      {t1 + "-one", {A, D}},
      {t1 + "-two/words", {B}},
      {t1 + "-none", {}},
      {t1 + "-77", {}},
      {"1", {}},
  };
  RecordFilterParams p;
  const set<StreamId> everything = {A, B, C, D};
  set<StreamId> want = everything;
  set<Type> wantTypes = {Type::CONFIGURATION, Type::STATE, Type::DATA};
  const int n = mc::choose(deep ? 5 : 4, "count");
  const int how = mc::choose(2, "together"); // one call each, or a list
  string list;
  for (int k = 0; k < n; ++k) {
    const Name& name = mc::pick(names, "name");
    const bool add = mc::choose(2, "remove") == 0;
    if (how == 0) {
      mc::check(add ? p.includeStream(name.text) : p.excludeStream(name.text), "name-refused", name.text);
    } else {
      list += string(k ? "," : "") + (add ? (k == 0 ? "" : "+") : k == 1 ? "~" : "-") + name.text + (k == 1 ? " " : "");
    }
    if (k == 0) {
      want = add ? set<StreamId>() : everything;
    }
    for (auto& id : name.ids) {
      if (add) {
        want.insert(id);
      } else {
        want.erase(id);
      }
    }
  }
  if (how == 1) {
    mc::check(p.includeExcludeStream(list), "list-refused", list);
  }
  FilteredFileReader f(path);
  mc::check(f.openFile(p) == 0, "harness-open");
  if (f.filter.streams != want) {
    string s = list;
    for (auto& x : p.streamFilters) {
      s += " " + x;
    }
    s += " selects";
    for (auto& id : f.filter.streams) {
      s += " " + id.getNumericName();
    }
    s += " instead of";
    for (auto& id : want) {
      s += " " + id.getNumericName();
    }
    mc::fail("streams-by-name", s);
  }
  set<StreamId> other;
  p.getIncludedStreams(f.reader, other);
  auto ptr = p.getIncludedStreams(f.reader);
  mc::check(other == want && (n == 0 ? !ptr : ptr && *ptr == want), "included-streams");
  mc::transition();
  f.reader.closeFile();
}

void typesBody() {
  Ids ids;
  const string path = makeFile(0, 2, ids);
  const vector<pair<string, Type>> names = {{"configuration", Type::CONFIGURATION}, {"Config", Type::CONFIGURATION}, {"c", Type::CONFIGURATION}, {"state", Type::STATE}, {"STATE", Type::STATE}, {"data", Type::DATA}, {"d", Type::DATA}};
  RecordFilterParams p;
  const set<Type> everything = {Type::CONFIGURATION, Type::STATE, Type::DATA};
  set<Type> want = everything;
  const int n = mc::choose(4, "count");
  string text;
  for (int k = 0; k < n; ++k) {
    const auto& name = mc::pick(names, "name");
    const bool add = mc::choose(2, "remove") == 0;
    mc::check(add ? p.includeType(name.first) : p.excludeType(name.first), "type-refused", name.first);
    text += (add ? " +" : " -") + name.first;
    if (k == 0) {
      want = add ? set<Type>() : everything;
    }
    if (add) {
      want.insert(name.second);
    } else {
      want.erase(name.second);
    }
  }
  for (const char* bad : {"x", "datas", "config "}) {
    mc::check(!p.includeType(bad) && !p.excludeType(bad), "bad-type-accepted", bad);
  }
  for (const char* bad : {"", "x", "-", "+", "0", "65535", "-1-"}) {
    RecordFilterParams q;
    mc::check(!q.includeStream(bad) && !q.excludeStream(bad) && q.streamFilters.empty(), "bad-stream-accepted", bad);
  }
  FilteredFileReader f(path);
  mc::check(f.openFile(p) == 0, "harness-open");
  mc::check(f.filter.types == want, "types-by-name", text);
  // time constraints as text
  struct T {
    const char* text;
    bool ok;
    double v;
    bool rel;
  };
  for (const T& t : {T{"3", true, 3, false}, T{"+1.5", true, 1.5, true}, T{"-2", true, -2, true}, T{"x", false, 0, false}, T{"", false, 0, false}, T{"1e400", false, 0, false}}) {
    FilteredFileReader g(path);
    const bool okA = g.afterConstraint(t.text), okB = g.beforeConstraint(t.text);
    mc::check(okA == t.ok && okB == t.ok, "time-constraint", t.text);
    if (t.ok) {
      mc::check(g.filter.minTime == t.v && g.filter.maxTime == t.v && g.filter.relativeMinTime == t.rel && g.filter.relativeMaxTime == t.rel, "time-constraint-value", t.text);
      RecordFilter copy;
      copy.copyTimeConstraints(g.filter);
      mc::check(copy.minTime == t.v && copy.maxTime == t.v && copy.relativeMinTime == t.rel && copy.relativeMaxTime == t.rel && !copy.aroundTime, "time-constraint-copy", t.text);
    }
  }
  mc::transition();
  f.reader.closeFile();
}

// ---------- decimation ----------
void decimateBody(bool buckets) {
  const string path = cleanScratch() + "/decimate.vrs";
  Recordable::resetNewInstanceIds();
  Source a(RecordableTypeId::UnitTest1), b(RecordableTypeId::UnitTest1);
  Source* all[] = {&a, &b};
  const int n = 1 + mc::choose(deep ? 6 : 4, "records");
  {
    RecordFileWriter w;
    w.addRecordable(&a);
    w.addRecordable(&b);
    double t = 8;
    for (int k = 0; k < n; ++k) {
      Source* s = all[mc::choose(2, "stream")];
      const double steps[] = {0, .25, 1, 2.75};
      if (k > 0) {
        t += steps[mc::choose(4, "step")];
      }
      const Type type = mc::choose(2, "type", 1) ? Type::STATE : Type::DATA;
      s->create(t, type, uint32_t(k), payload(5, uint32_t(k)));
    }
    mc::check(w.writeToFile(path) == 0, "harness-write");
  }
  FilteredFileReader f(path);
  mc::check(f.openFile() == 0, "harness-open");
  const auto& index = f.reader.getIndex();
  const StreamId ids[] = {a.getStreamId(), b.getStreamId()};
  const double intervals[] = {0.25, 1, 1.25, 3};
  auto got = [&](const DefaultDecimator::Params& params) {
    vector<const Info*> v;
    params.decimate(f);
    f.iterateAdvanced([&](RecordFileReader&, const Info& r) {
      v.push_back(&r);
      return true;
    });
    // a second time: no memory of the first
    vector<const Info*> again;
    f.iterateAdvanced([&](RecordFileReader&, const Info& r) {
      again.push_back(&r);
      return true;
    });
    mc::check(v == again, "decimated-again", infos(v) + "then\n" + infos(again));
    f.decimator_.reset();
    mc::transition();
    return v;
  };
  vector<const Info*> everything;
  for (auto& r : index) {
    everything.push_back(&r);
  }
  if (!buckets) {
    for (int which = 0; which < 4; ++which) { // none, a, b, both
      for (double iv : intervals) {
        DefaultDecimator::Params p;
        if (which == 3) {
          p.decimationIntervals.push_back({S(int64_t(RecordableTypeId::UnitTest1)), iv});
        } else if (which > 0) {
          p.decimationIntervals.push_back({ids[which - 1].getNumericName(), iv});
        } else {
          p.decimationIntervals.push_back({S(int64_t(RecordableTypeId::UnitTest2)), iv});
        }
        p.bucketInterval = 0;
        const auto v = got(p);
        vector<const Info*> want;
        map<StreamId, double> kept;
        for (auto& r : index) {
          const bool applies = r.recordType == Type::DATA && (which == 3 || (which > 0 && r.streamId == ids[which - 1]));
          if (applies) {
            auto it = kept.find(r.streamId);
            if (it != kept.end() && r.timestamp < it->second + iv) {
              continue;
            }
            kept[r.streamId] = r.timestamp;
          }
          want.push_back(&r);
        }
        if (v != want) {
          mc::fail("interval-decimation", "interval " + F(iv) + " on " + S(which) + "\n  file:\n" + infos(everything) + "  expected:\n" + infos(want) + "  got:\n" + infos(v));
        }
      }
    }
  } else {
    for (double iv : intervals) {
      for (double delta : {iv / 8, iv / 4, iv / 2}) {
        DefaultDecimator::Params p(iv, delta);
        const auto v = got(p);
        auto about = [&](const string& why) {
          return why + ", interval " + F(iv) + " delta " + F(delta) + "\n  file:\n" + infos(everything) + "  got:\n" + infos(v);
        };
        // what each bucket gets from each stream: the records within delta of its time, nearest first
        double t0 = nan("");
        map<pair<int64_t, StreamId>, double> best;
        map<const Info*, vector<int64_t>> bucketsOf;
        for (auto& r : index) {
          if (r.recordType != Type::DATA) {
            continue;
          }
          if (std::isnan(t0)) {
            t0 = r.timestamp;
          }
          for (int64_t k = 0; t0 + double(k) * iv <= r.timestamp + delta; ++k) {
            const double d = fabs(r.timestamp - (t0 + double(k) * iv));
            if (d <= delta) {
              bucketsOf[&r].push_back(k);
              auto it = best.find({k, r.streamId});
              if (it == best.end() || d < it->second) {
                best[{k, r.streamId}] = d;
              }
            }
          }
        }
        map<pair<int64_t, StreamId>, int> filled;
        set<const Info*> seen;
        size_t others = 0;
        for (auto* r : v) {
          if (!seen.insert(r).second) {
            mc::fail("bucket-duplicate", about("a record twice"));
          }
          if (r->recordType != Type::DATA) {
            ++others;
            continue;
          }
          bool good = false;
          for (int64_t k : bucketsOf[r]) {
            if (fabs(r->timestamp - (t0 + double(k) * iv)) <= best[{k, r->streamId}] && filled[{k, r->streamId}] == 0) {
              filled[{k, r->streamId}] = 1;
              good = true;
              break;
            }
          }
          if (!good) {
            mc::fail("bucket-record", about("the record at " + F(r->timestamp) + " of " + r->streamId.getNumericName() + " is not the nearest of a bucket"));
          }
        }
        // (a record at the same distance of two buckets may go to either)
        if (delta < iv / 2) {
          for (auto& b : best) {
            if (filled[b.first] == 0) {
              mc::fail("bucket-empty", about("nothing from " + b.first.second.getNumericName() + " at " + F(t0 + double(b.first.first) * iv)));
            }
          }
        }
        size_t wantOthers = 0;
        for (auto& r : index) {
          wantOthers += r.recordType != Type::DATA;
        }
        if (others != wantOthers) {
          mc::fail("bucket-others", about("configuration and state records missing"));
        }
      }
    }
  }
  mc::state(mc::hashInt(index.size()));
  f.reader.closeFile();
}

// ---------- copying ----------
sched::Config oneSchedule() {
  sched::Config cfg;
  cfg.freeSwitchAtBlock = false;
  cfg.timeoutCost = 100;
  cfg.maxSteps = 200000;
  cfg.switchCost = 100;
  return cfg;
}

struct SetTags : public TagOverrider {
  void overrideTags(RecordFileWriter& w) const override {
    w.setTag("overridden", "yes");
    TagOverrider::overrideTags(w);
  }
};

void setOptions(CopyOptions& o, bool& chunked) {
  o.showProgress = mc::choose(2, "progress", 1) == 1;
  switch (mc::choose(4, "compression", 1)) {
    case 1:
      o.setCompressionPreset(CompressionPreset::None);
      break;
    case 2:
      o.setCompressionPreset(CompressionPreset::Lz4Fast);
      break;
    case 3:
      o.setDefaultCompressionPreset(CompressionPreset::None);
      break;
    default:
      break;
  }
  o.compressionPoolSize = mc::choose(2, "pool", 1) ? 2 : 0;
  o.preallocateIndex = mc::choose(2, "late index", 1) == 0;
  const int c = mc::choose(3, "chunks", 1);
  o.maxChunkSizeMB = size_t(c == 0 ? 0 : c == 1 ? 1 : 4); // (a unit is 1 KB here)
  chunked = c == 1;
  o.graceWindow = mc::choose(2, "grace", 1) ? 2.5 : 0;
}

void expectTags(const map<string, string>& want, const map<string, string>& got, const char* key) {
  if (want != got) {
    string s = "  expected:\n";
    for (auto& t : want) {
      s += "    " + t.first + "=" + t.second + "\n";
    }
    s += "  got:\n";
    for (auto& t : got) {
      s += "    " + t.first + "=" + t.second + "\n";
    }
    mc::fail(key, s);
  }
}

void copyBody() {
  Recordable::resetNewInstanceIds();
  const string& dir = cleanScratch();
  auto run = [&]() {
    const string path = dir + "/source.vrs", out = dir + "/copy.vrs";
    const int n = 1 + mc::choose(deep ? 5 : 4, "records");
    Source skipped(RecordableTypeId::UnitTest1); // so that the first instance of the file isn't 1
    Source a(RecordableTypeId::UnitTest1, "a/flavor"), b(RecordableTypeId::UnitTest1), c(RecordableTypeId::UnitTest2, "c");
    Source* all[] = {&a, &b, &c};
    map<string, string> fileTags = {{"file", "tag"}, {"empty", ""}, {string("z\0ero", 5), string("\0", 1)}};
    if (mc::choose(2, "many records", 2)) {
      // (more than the copier hands to the writer at once)
      for (int k = 0; k < 130; ++k) {
        all[k % 3]->create(1 + k * .01, Type::DATA, 1, payload(20, uint32_t(100 + k)));
      }
    }
    {
      RecordFileWriter w;
      const CompressionPreset presets[] = {CompressionPreset::None, CompressionPreset::Lz4Fast, CompressionPreset::ZstdFaster};
      for (auto* s : all) {
        w.addRecordable(s);
        s->setTag("name", s->getStreamId().getNumericName());
        s->setCompression(presets[mc::choose(3, "source preset", 2)]);
      }
      for (auto& t : fileTags) {
        w.setTag(t.first, t.second);
      }
      double t = 1;
      for (int k = 0; k < n; ++k) {
        Source* s = all[mc::choose(3, "stream", 1)];
        const Type type = kTypes[(mc::choose(3, "type", 1) + 2) % 3];
        t += k == 0 ? 0 : mc::choose(2, "step", 1) ? 0 : 1;
        const size_t sizes[] = {5, 0, 400, 3000};
        s->create(t, type, uint32_t(k), payload(sizes[mc::choose(4, "size", 1)], uint32_t(k + 1), k & 1 ? kNoise : kPattern));
      }
      mc::check(w.writeToFile(path) == 0, "harness-write");
    }
    FilteredFileReader f(path);
    mc::check(f.openFile() == 0, "harness-open");
    auto sourceStreamTags = f.reader.getStreamTags();
    // the selection
    switch (mc::choose(5, "streams", 1)) {
      case 1:
        f.filter.streams = {b.getStreamId(), c.getStreamId()};
        break;
      case 2:
        f.filter.streams = {c.getStreamId()};
        break;
      case 3:
        f.filter.streams = {};
        break;
      case 4:
        f.filter.streams = {a.getStreamId(), b.getStreamId()};
        break;
      default:
        break;
    }
    switch (mc::choose(3, "types", 1)) {
      case 1:
        f.filter.types = {Type::DATA};
        break;
      case 2:
        f.filter.types = {Type::CONFIGURATION, Type::STATE};
        break;
      default:
        break;
    }
    Times t;
    switch (mc::choose(5, "times", 1)) {
      case 1:
        t.minKind = Times::kAbs;
        t.min = 2;
        break;
      case 2:
        t.maxKind = Times::kAbs;
        t.max = 2;
        break;
      case 3:
        t.minKind = Times::kRel;
        t.min = -1;
        break;
      case 4:
        t.minKind = Times::kRel;
        t.min = 1;
        t.maxKind = Times::kRel;
        t.max = 2;
        break;
      default:
        break;
    }
    f.firstRecordsOnly = mc::choose(2, "first only", 1) == 1;
    const Selection want = selection(f.reader.getIndex(), f.filter.streams, f.filter.types, t, f.firstRecordsOnly);
    if (!want.known) {
      f.reader.closeFile();
      return;
    }
    t.apply(f);
    CopyOptions original(false);
    bool chunked = false;
    setOptions(original, chunked);
    set<string> overriding;
    if (int o = mc::choose(3, "override", 1)) {
      if (o == 2) {
        original.tagOverrider = make_unique<SetTags>();
        overriding.insert("overridden");
      }
      original.getTagOverrider().fileTags["file"] = "changed";
      original.getTagOverrider().fileTags["new"] = "tag";
      original.getTagOverrider().streamTags[StreamId(RecordableTypeId::UnitTest1, 1)]["name"] = "first";
      original.getTagOverrider().streamTags[StreamId(RecordableTypeId::UnitTest1, 77)]["name"] = "none";
      fileTags["file"] = "changed";
      fileTags["new"] = "tag";
    }
    CopyOptions* options = &original;
    unique_ptr<CopyOptions> copied;
    if (overriding.empty()) {
      // options that were copied are the same options
      switch (mc::choose(3, "copied options", 1)) {
        case 1:
          copied = make_unique<CopyOptions>(original);
          break;
        case 2:
          copied = make_unique<CopyOptions>();
          *copied = original;
          break;
        default:
          break;
      }
      if (copied) {
        mc::check(copied->getCompression() == original.getCompression() && copied->preallocateIndex == original.preallocateIndex, "copied-options");
        options = copied.get();
      }
    } else {
      fileTags["overridden"] = "yes";
    }
    vector<const Info*> wanted = want.afterMin ? want.before : vector<const Info*>();
    wanted.insert(wanted.end(), want.in.begin(), want.in.end());
    // what these records are
    vector<Rec> expected;
    const Content src = readFile(path);
    mc::check(src.status == 0 && src.readErrors == 0 && src.recs.size() == f.reader.getIndex().size(), "harness-source");
    map<StreamId, StreamId> newIds;
    map<RecordableTypeId, uint16_t> counts;
    for (auto& id : f.filter.streams) {
      newIds[id] = StreamId(id.getTypeId(), ++counts[id.getTypeId()]);
    }
    for (auto* r : wanted) {
      Rec x = src.recs[size_t(r - &f.reader.getIndex()[0])];
      x.id = newIds[x.id];
      x.order = expected.size();
      expected.push_back(std::move(x));
    }
    const set<StreamId> streams = f.filter.streams;
    const int status = filterCopy(f, out, *options);
    mc::check(status == 0, "copy-status", S(status));
    mc::check(options->outRecordCopiedCount == expected.size(), "copied-count", S(options->outRecordCopiedCount) + " instead of " + S(int64_t(expected.size())));
    // a chunked copy may have no name of its own on disk before its chunks
    RecordFileReader reader;
    FileSpec spec;
    mc::check(RecordFileReader::vrsFilePathToFileSpec(out, spec, true) == 0, "copy-path");
    const int open = reader.openFile(spec);
    mc::check(open == 0, "copy-open", S(open));
    Content c2;
    readIndexed(reader, c2);
    if (c2.readErrors != 0) {
      mc::fail("copy-read-errors", diff(expected, c2.recs));
    }
    compareRecs(expected, c2.recs, "copy");
    set<StreamId> wantIds;
    for (auto& p : newIds) {
      wantIds.insert(p.second);
    }
    mc::check(reader.getStreams() == wantIds, "copy-streams");
    expectTags(fileTags, c2.tags, "copy-file-tags");
    for (auto& p : newIds) {
      StreamTags st = sourceStreamTags[p.first];
      if (original.tagOverrider && p.second == StreamId(RecordableTypeId::UnitTest1, 1)) {
        st.user["name"] = "first";
      }
      expectTags(st.user, c2.streamTags[p.second].user, "copy-stream-tags");
      expectTags(st.vrs, c2.streamTags[p.second].vrs, "copy-stream-vrs-tags");
      mc::check(reader.getFlavor(p.second) == f.reader.getFlavor(p.first), "copy-flavor");
    }
    mc::check(c2.hasIndex, "copy-index");
    if (original.maxChunkSizeMB == 0) {
      mc::check(spec.chunks.size() == 1, "copy-chunks");
    }
    reader.closeFile();
    f.reader.closeFile();
    mc::state(hashRecs(expected));
    mc::traceValidated();
  };
  sched::run(run, oneSchedule());
}

// ---------- merging ----------
struct MergeSource {
  string path;
  map<string, string> tags;
  vector<unique_ptr<Source>> streams;
  vector<const char*> flavors;
};

// The tags of the first file are kept; each tag of the others is there too, under its name or, when that has another
// value, under one that derives from it (unless private); and nothing else is.
struct MergedTags {
  map<string, string> first; // those of the first file, then those with new names
  multimap<string, string> all;
  void add(const map<string, string>& more, bool initial) {
    for (auto& t : more) {
      if (initial) {
        first.insert(t);
      }
      all.insert(t);
    }
  }
  void expect(const map<string, string>& got, bool priv, const char* key) const {
    auto show = [&]() {
      string s = "  sources:\n";
      for (auto& t : all) {
        s += "    " + t.first + "=" + t.second + (first.count(t.first) && first.at(t.first) == t.second ? " (first)" : "") + "\n";
      }
      s += "  got:\n";
      for (auto& t : got) {
        s += "    " + t.first + "=" + t.second + "\n";
      }
      return s;
    };
    auto derives = [](const string& name, const string& from) { return name.compare(0, from.size(), from) == 0; };
    for (auto& t : first) {
      if (!got.count(t.first) || got.at(t.first) != t.second) {
        mc::fail(key, show());
      }
    }
    for (auto& t : all) {
      bool found = priv ? got.count(t.first) != 0 : false;
      for (auto& g : got) {
        found |= g.second == t.second && derives(g.first, t.first);
      }
      if (!found) {
        mc::fail(key, show());
      }
    }
    for (auto& g : got) {
      bool found = false;
      for (auto& t : all) {
        found |= g.second == t.second && derives(g.first, t.first) && (!priv || g.first == t.first);
      }
      if (!found) {
        mc::fail(key, show());
      }
    }
    if (got.size() > all.size()) {
      mc::fail(key, show());
    }
  }
};

void mergeBody() {
  const string& dir = cleanScratch();
  auto run = [&]() {
    const int files = 2 + mc::choose(2, "files", 1);
    const RecordableTypeId types[] = {RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest2};
    // which streams each file has: number of each of two types
    const pair<int, int> layouts[] = {{1, 0}, {2, 0}, {1, 1}, {0, 1}, {0, 0}};
    vector<MergeSource> sources{size_t(files)};
    uint32_t tag = 0;
    for (int f = 0; f < files; ++f) {
      Recordable::resetNewInstanceIds();
      MergeSource& m = sources[size_t(f)];
      m.path = dir + "/source" + S(f) + ".vrs";
      const auto l = layouts[mc::choose(5, "layout", 1)];
      const bool shift = mc::choose(2, "instance", 2) == 1;
      unique_ptr<Source> unused;
      if (shift) {
        unused = make_unique<Source>(types[0]);
      }
      RecordFileWriter w;
      for (int k = 0; k < l.first + l.second; ++k) {
        m.streams.push_back(make_unique<Source>(types[k < l.first ? 0 : 1], k == 0 ? "f" : ""));
        Source& s = *m.streams.back();
        s.setTag("same", "everywhere");
        s.setTag("stream", mc::choose(2, "stream tag", 2) ? S(f) : string("s"));
        if (f > 0 && mc::choose(2, "reserved tag", 3)) {
          s.setTag("stream_merged", "taken " + S(f));
        }
        w.addRecordable(&s);
      }
      w.setTag("all", "same");
      const int ft = mc::choose(3, "file tag", 1);
      if (ft == 1) {
        w.setTag("file", "of " + S(f));
      } else if (ft == 2) {
        w.setTag("file", "of " + S(f));
        w.setTag("file_merged", "another " + S(f));
      } else {
        w.setTag("only" + S(f), "x");
      }
      if (!m.streams.empty()) {
        double t = 1;
        const int n = mc::choose(3, "records", 1) == 1 ? 3 : 2;
        for (int k = 0; k < n; ++k) {
          Source& s = *m.streams[size_t(mc::choose(int(m.streams.size()), "stream", 1))];
          const double steps[] = {1, 0, .5};
          t += steps[mc::choose(3, "step", 1)];
          s.create(t, kTypes[(mc::choose(3, "type", 1) + 2) % 3], uint32_t(f), payload(size_t(4 + tag), tag));
          ++tag;
        }
      }
      mc::check(w.writeToFile(m.path) == 0, "harness-write");
    }
    list<FilteredFileReader> readers;
    for (auto& m : sources) {
      readers.emplace_back(m.path);
      mc::check(readers.back().openFile() == 0, "harness-open");
    }
    // a filter, on all of them
    Times t;
    set<Type> typeFilter = {Type::CONFIGURATION, Type::STATE, Type::DATA};
    switch (mc::choose(4, "filter", 1)) {
      case 1:
        t.minKind = Times::kAbs;
        t.min = 2.5;
        break;
      case 2:
        t.maxKind = Times::kRel;
        t.max = 1;
        break;
      case 3:
        typeFilter = {Type::DATA};
        break;
      default:
        break;
    }
    CopyOptions options(false);
    options.mergeStreams = mc::choose(2, "separate", 1) == 0;
    bool chunked = false;
    if (mc::choose(2, "options", 2)) {
      setOptions(options, chunked);
    }
    // the streams expected, and where those of the sources go
    struct Out {
      RecordableTypeId type;
      string flavor;
      MergedTags user, vrs;
      vector<pair<FilteredFileReader*, StreamId>> from;
    };
    vector<Out> outs;
    map<RecordableTypeId, vector<size_t>> byType;
    MergedTags wantTags;
    double start = numeric_limits<double>::max(), end = numeric_limits<double>::lowest();
    bool firstFile = true;
    for (auto& r : readers) {
      wantTags.add(r.reader.getTags(), firstFile);
      map<RecordableTypeId, size_t> seen;
      for (auto& id : r.filter.streams) {
        auto& same = byType[id.getTypeId()];
        const size_t k = seen[id.getTypeId()]++;
        if (!firstFile && options.mergeStreams && k < same.size()) {
          Out& o = outs[same[k]];
          o.user.add(r.reader.getTags(id).user, false);
          o.vrs.add(r.reader.getTags(id).vrs, false);
          if (o.flavor.empty()) { // (a flavor is one of these tags)
            o.flavor = r.reader.getFlavor(id);
          }
          o.from.push_back({&r, id});
        } else {
          same.push_back(outs.size());
          outs.push_back({id.getTypeId(), r.reader.getFlavor(id), {}, {}, {{&r, id}}});
          outs.back().user.add(r.reader.getTags(id).user, true);
          outs.back().vrs.add(r.reader.getTags(id).vrs, true);
        }
      }
      firstFile = false;
      r.filter.types = typeFilter;
      t.apply(r);
      for (auto& i : r.reader.getIndex()) {
        if (i.recordType == Type::DATA) {
          start = min(start, i.timestamp);
          end = max(end, i.timestamp);
        }
      }
    }
    bool known = true;
    map<FilteredFileReader*, vector<Rec>> selected;
    for (auto& r : readers) {
      Times tt = t;
      if (t.maxKind == Times::kRel) { // relative to all the files
        known = start <= end;
        tt.maxKind = Times::kAbs;
        tt.max = t.max + start;
      }
      const Selection s = selection(r.reader.getIndex(), r.filter.streams, typeFilter, tt, false);
      const Content src = readFile(r.spec.chunks.front());
      vector<const Info*> v = s.afterMin ? s.before : vector<const Info*>();
      v.insert(v.end(), s.in.begin(), s.in.end());
      for (auto* i : v) {
        selected[&r].push_back(src.recs[size_t(i - &r.reader.getIndex()[0])]);
      }
    }
    if (!known) {
      return;
    }
    Recordable::resetNewInstanceIds();
    const string out = dir + "/merged.vrs";
    auto& first = readers.front();
    vector<FilteredFileReader*> more;
    for (auto& r : readers) {
      if (&r != &first) {
        more.push_back(&r);
      }
    }
    const int status = filterMerge(first, more, out, options);
    mc::check(status == 0, "merge-status", S(status));
    FileSpec spec;
    mc::check(RecordFileReader::vrsFilePathToFileSpec(out, spec, true) == 0, "merge-path");
    RecordFileReader reader;
    mc::check(reader.openFile(spec) == 0, "merge-open");
    Content got;
    readIndexed(reader, got);
    mc::check(got.readErrors == 0, "merge-read-errors");
    wantTags.expect(got.tags, false, "merge-file-tags");
    mc::check(reader.getStreams().size() == outs.size(), "merge-streams", S(int64_t(reader.getStreams().size())) + " streams instead of " + S(int64_t(outs.size())));
    map<RecordableTypeId, uint32_t> nth;
    size_t total = 0;
    for (auto& o : outs) {
      const StreamId id = reader.getStreamForType(o.type, nth[o.type]++);
      mc::check(id.isValid(), "merge-stream-missing");
      mc::check(reader.getFlavor(id) == o.flavor, "merge-flavor");
      o.user.expect(reader.getTags(id).user, false, "merge-stream-tags");
      o.vrs.expect(reader.getTags(id).vrs, true, "merge-stream-vrs-tags");
      // records: one for each type and time, by time
      vector<Rec> mine, want;
      for (auto& r : got.recs) {
        if (r.id == id) {
          mine.push_back(r);
        }
      }
      for (auto& from : o.from) {
        for (auto& r : selected[from.first]) {
          if (r.id == from.second) {
            want.push_back(r);
          }
        }
      }
      auto show = [&]() { return "stream " + id.getNumericName() + "\n" + diff(want, mine); };
      set<pair<double, Type>> keys, done;
      for (auto& r : want) {
        keys.insert({r.ts, r.type});
      }
      double last = -1;
      for (auto& r : mine) {
        if (r.ts < last) {
          mc::fail("merge-order", show());
        }
        last = r.ts;
        if (!done.insert({r.ts, r.type}).second) {
          mc::fail("merge-duplicate", show());
        }
        bool found = false;
        for (auto& w : want) {
          found |= w.ts == r.ts && w.type == r.type && w.fv == r.fv && w.data == r.data;
        }
        if (!found) {
          mc::fail("merge-record", show());
        }
      }
      if (done != keys) {
        mc::fail("merge-lost", show());
      }
      total += mine.size();
    }
    mc::check(total == got.recs.size() && options.outRecordCopiedCount == total, "merge-count", S(options.outRecordCopiedCount) + " counted, " + S(int64_t(total)) + " of " + S(int64_t(got.recs.size())));
    reader.closeFile();
    for (auto& r : readers) {
      r.reader.closeFile();
    }
    mc::state(hashRecs(got.recs));
    mc::traceValidated();
  };
  sched::run(run, oneSchedule());
}

// ---------- editing while copying ----------
struct Layout : public AutoDataLayout {
  DataPieceValue<uint32_t> number{"number"};
  DataPieceString name{"name"};
  DataPieceVector<uint16_t> list{"list"};
  AutoDataLayoutEnd end;
};

struct Edits {
  vector<uint8_t> verbatim, skip, version, number, name, pixels;
};

struct Editor : public RecordFilterCopier {
  const Edits& e;
  size_t* counter;
  size_t rec = 0;
  Editor(RecordFileReader& r, RecordFileWriter& w, StreamId id, const CopyOptions& o, const Edits& edits, size_t* c)
      : RecordFilterCopier(r, w, id, o), e{edits}, counter{c} {}
  bool shouldCopyVerbatim(const CurrentRecord&) override {
    rec = (*counter)++;
    if (e.skip[rec] == 2) {
      return false;
    }
    return e.verbatim[rec];
  }
  bool processRecordHeader(const CurrentRecord& r, DataReference& ref) override {
    if (r.recordSize == 0) {
      rec = (*counter)++;
    }
    return RecordFilterCopier::processRecordHeader(r, ref);
  }
  void doHeaderEdits(CurrentRecord& r) override {
    if (e.version[rec]) {
      r.formatVersion += 100;
    }
  }
  void doDataLayoutEdits(const CurrentRecord&, size_t, DataLayout& dl) override {
    if (e.skip[rec]) {
      skipRecord();
    }
    Layout& l = getExpectedLayout<Layout>(dl, 0);
    if (e.number[rec] && l.number.isMapped()) {
      l.number.patchValue(l.number.get() + 1000);
    }
    if (e.name[rec] && l.name.isMapped()) {
      l.name.patchValue(l.name.get() + "+edited");
    }
  }
  void filterImage(const CurrentRecord&, size_t, const ContentBlock&, vector<uint8_t>& p) override {
    if (e.pixels[rec]) {
      for (auto& x : p) {
        x = uint8_t(~x);
      }
    }
  }
  void filterAudio(const CurrentRecord& r, size_t i, const ContentBlock& b, vector<uint8_t>& p) override {
    filterImage(r, i, b, p);
  }
};

constexpr size_t kImage = 8, kCustom = 5;

struct Formatted : public Recordable {
  Layout layout;
  Formatted() : Recordable(RecordableTypeId::UnitTest1) {
    setCompression(CompressionPreset::None);
    const ContentBlock image{ImageContentBlockSpec(PixelFormat::GREY8, 4, 2)};
    const ContentBlock audio(AudioFormat::PCM, AudioSampleFormat::S16_LE, 1, 0, 8000, 4);
    const ContentBlock custom{ContentType::CUSTOM, kCustom};
    const ContentBlock rest{ContentType::CUSTOM};
    addRecordFormat(Type::DATA, 1, layout.getContentBlock() + image, {&layout});
    addRecordFormat(Type::DATA, 2, layout.getContentBlock() + custom + audio, {&layout});
    addRecordFormat(Type::DATA, 3, layout.getContentBlock() + rest, {&layout});
    addRecordFormat(Type::DATA, 4, image + layout.getContentBlock(), {nullptr, &layout});
    addRecordFormat(Type::STATE, 1, layout.getContentBlock(), {&layout});
  }
  const Record* createRecordRaw(Type type, double ts, uint32_t fv, const vector<uint8_t>& data) {
    return createRecord(ts, type, fv, DataSource(DataSourceChunk(data.data(), data.size())));
  }
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
};

vector<uint8_t> layoutBytes(uint32_t number, const string& name) {
  Layout l;
  l.number.set(number);
  l.name.stage(name);
  l.list.stage(vector<uint16_t>(number % 3, uint16_t(number)));
  l.collectVariableDataAndUpdateIndex();
  vector<uint8_t> v;
  v.insert(v.end(), l.getFixedData().begin(), l.getFixedData().end());
  v.insert(v.end(), l.getVarData().begin(), l.getVarData().end());
  return v;
}

void editBody(bool zero) {
  Recordable::resetNewInstanceIds();
  const string& dir = cleanScratch();
  auto run = [&]() {
    const string path = dir + "/source.vrs", out = dir + "/copy.vrs";
    Formatted src;
    RecordFileWriter w;
    w.addRecordable(&src);
    const int n = 2 + (deep ? mc::choose(2, "more", 1) : 0);
    Edits e;
    struct Plan {
      Type type;
      uint32_t fv;
      uint32_t number;
      string name;
      vector<uint8_t> block1, block2;
      bool empty;
    };
    vector<Plan> plans;
    CopyOptions options(false);
    const bool removeBlocks = zero && mc::choose(2, "remove blocks", 1);
    if (removeBlocks) {
      options.miscParams[kRemoveContentBlocks] = "1";
    }
    for (int k = 0; k < n; ++k) {
      Plan p;
      const int kind = mc::choose(6, "kind");
      p.type = kind == 4 ? Type::STATE : Type::DATA;
      p.fv = kind == 4 ? 1 : kind == 5 ? 1 : uint32_t(kind + 1);
      p.empty = kind == 5;
      p.number = uint32_t(k + 1);
      p.name = string(mc::choose(2, "name", 1) ? 0 : 6, char('a' + k));
      if (!p.empty && p.type == Type::DATA) {
        if (p.fv == 1 || p.fv == 4) {
          p.block1 = payload(kImage, uint32_t(50 + k), kNoise);
        } else if (p.fv == 2) {
          p.block1 = payload(kCustom, uint32_t(50 + k), kNoise);
          p.block2 = payload(8, uint32_t(60 + k), kNoise);
        } else {
          p.block1 = payload(mc::choose(2, "nothing left", 1) ? 0 : 7, uint32_t(50 + k), kNoise);
        }
      }
      plans.push_back(p);
      e.verbatim.push_back(uint8_t(!zero && mc::choose(2, "verbatim", 1)));
      e.skip.push_back(uint8_t(zero ? 0 : mc::choose(2, "skip", 1)));
      e.version.push_back(uint8_t(!zero && mc::choose(2, "version", 1)));
      e.number.push_back(uint8_t(!zero && mc::choose(2, "number", 1)));
      e.name.push_back(uint8_t(!zero && mc::choose(2, "edit name", 1)));
      e.pixels.push_back(uint8_t(!zero && mc::choose(2, "pixels", 1)));
    }
    auto bytes = [&](const Plan& p, const vector<uint8_t>& layout, const vector<uint8_t>& b1, const vector<uint8_t>& b2) {
      vector<uint8_t> v;
      if (p.empty) {
        return v;
      }
      if (p.fv == 4) {
        v = b1;
        v.insert(v.end(), layout.begin(), layout.end());
      } else {
        v = layout;
        v.insert(v.end(), b1.begin(), b1.end());
        v.insert(v.end(), b2.begin(), b2.end());
      }
      return v;
    };
    vector<Rec> expected;
    for (int k = 0; k < n; ++k) {
      const Plan& p = plans[size_t(k)];
      const size_t i = size_t(k);
      const vector<uint8_t> data = bytes(p, layoutBytes(p.number, p.name), p.block1, p.block2);
      src.createRecordRaw(p.type, double(k + 1), p.fv, data);
      // what should come out
      Rec r;
      r.type = p.type;
      r.ts = double(k + 1);
      r.fv = p.fv;
      r.order = i;
      const bool verbatim = e.verbatim[i] || p.empty;
      if (zero) {
        vector<uint8_t> b1 = p.block1, b2 = p.block2;
        const bool image = p.type == Type::DATA && (p.fv == 1 || p.fv == 4), audio = p.type == Type::DATA && p.fv == 2;
        if (image) {
          b1.assign(removeBlocks ? 0 : b1.size(), 0);
        } else if (audio) {
          b2.assign(removeBlocks ? 0 : b2.size(), 0);
        }
        r.data = bytes(p, layoutBytes(p.number, p.name), b1, b2);
      } else if (verbatim) {
        r.data = data;
      } else {
        vector<uint8_t> b1 = p.block1, b2 = p.block2;
        if (e.pixels[i]) {
          auto& b = p.fv == 1 || p.fv == 4 ? b1 : b2; // (not custom blocks)
          for (auto& x : b) {
            x = uint8_t(~x);
          }
        }
        r.data = bytes(p, layoutBytes(p.number + (e.number[i] ? 1000 : 0), p.name + (e.name[i] ? "+edited" : "")), b1, b2);
        if (e.number[i]) { // (the list is as it was)
          Layout l;
          l.number.set(p.number + 1000);
          l.name.stage(p.name + (e.name[i] ? "+edited" : ""));
          l.list.stage(vector<uint16_t>(p.number % 3, uint16_t(p.number)));
          l.collectVariableDataAndUpdateIndex();
          vector<uint8_t> v(l.getFixedData().begin(), l.getFixedData().end());
          v.insert(v.end(), l.getVarData().begin(), l.getVarData().end());
          r.data = bytes(p, v, b1, b2);
        }
      }
      if (!zero && e.version[i]) {
        r.fv += 100;
      }
      if (zero || verbatim || !e.skip[i]) {
        expected.push_back(std::move(r));
      }
    }
    mc::check(w.writeToFile(path) == 0, "harness-write");
    FilteredFileReader f(path);
    mc::check(f.openFile() == 0, "harness-open");
    const StreamTags sourceTags = f.reader.getTags(*f.reader.getStreams().begin());
    size_t counter = 0;
    const int status = filterCopy(f, out, options, [&](RecordFileReader& r, RecordFileWriter& w2, StreamId id, const CopyOptions& o) -> unique_ptr<StreamPlayer> {
      if (zero) {
        return makeZeroFilterCopier(r, w2, id, o);
      }
      return make_unique<Editor>(r, w2, id, o, e, &counter);
    });
    mc::check(status == 0, "edit-status", S(status));
    f.reader.closeFile();
    const Content got = readFile(out);
    mc::check(got.status == 0 && got.readErrors == 0, "edit-read");
    const StreamId id(RecordableTypeId::UnitTest1, 1);
    for (auto& r : expected) {
      r.id = id;
    }
    compareRecs(expected, got.recs, "edited");
    if (!removeBlocks) {
      mc::check(got.streamTags.at(id).vrs == sourceTags.vrs && got.streamTags.at(id).user == sourceTags.user, "edit-tags");
    }
    mc::state(hashRecs(got.recs));
    mc::traceValidated();
  };
  sched::run(run, oneSchedule());
}

} // namespace

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
  }
  mc::add({"select-2", []() { selectBody(2, 3, true); }});
  mc::add({"select-3", []() { selectBody(3, 2, true); }});
  mc::add({"select-4", []() { selectBody(4, 2, false); }});
  if (deep) {
    mc::add({"select-33", []() { selectBody(3, 3, true); }});
  }
  mc::add({"names", namesBody});
  mc::add({"types", typesBody});
  mc::add({"decimate-interval", []() { decimateBody(false); }, deep ? 3 : 1});
  mc::add({"decimate-buckets", []() { decimateBody(true); }, deep ? 3 : 1});
  mc::add({"copy", copyBody, deep ? 4 : 3});
  mc::add({"merge", mergeBody, deep ? 5 : 3});
  mc::add({"edit", []() { editBody(false); }, deep ? 4 : 3});
  mc::add({"edit-zero", []() { editBody(true); }, deep ? 4 : 2});
  return mc::main(argc, argv, "C12");
}
