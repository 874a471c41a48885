// Numbering of recordables: every short sequence of creations and scoped resets against a model, and
// every schedule (preemption-bounded) of threads that create recordables in and out of scopes.
//   C24
#include <map>
#include <memory>
#include <set>
#include <thread>

#include <vrs/Recordable.h>

#include "mc.h"
#include "mcsched.h"

using namespace std;
using namespace vrs;

namespace {

string S(int64_t v) {
  return to_string(v);
}

const RecordableTypeId kTypes[] = {RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest2, RecordableTypeId::UnitTestRecordableClass, RecordableTypeId::VRSIndex};

struct Rec : public Recordable {
  explicit Rec(int type) : Recordable(kTypes[type], type == 2 ? "flavor" : "") {}
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
};

using Resetter = TemporaryRecordableInstanceIdsResetter;

int idOf(const Rec& r, int type) {
  mc::check(r.getRecordableTypeId() == kTypes[type] && r.getStreamId().getTypeId() == kTypes[type], "type");
  mc::check(r.getStreamId().getInstanceId() == r.getRecordableInstanceId(), "instance");
  return r.getRecordableInstanceId();
}

// ---------- sequences ----------
void sequences() {
  Recordable::resetNewInstanceIds();
  vector<map<int, int>> model(1); // one for each scope, the outermost first
  vector<unique_ptr<Resetter>> scopes;
  vector<unique_ptr<Rec>> alive;
  vector<set<StreamId>> used(1); // since the last reset
  int depth = mc::thorough() ? 8 : 6;
  for (int step = 0; step < depth; ++step) {
    uint64_t h = scopes.size();
    for (auto& m : model) {
      h = mc::hashInt(m.size(), h);
      for (auto& e : m) {
        h = mc::hashInt(uint64_t(e.first * 100 + e.second), h);
      }
    }
    mc::state(h);
    mc::transition();
    const int op = mc::choose(8, "op");
    if (op == 0) {
      break;
    }
    if (op <= 3) {
      const int type = op - 1;
      alive.push_back(make_unique<Rec>(type));
      const int id = idOf(*alive.back(), type), want = ++model.back()[type];
      if (mc::noting()) {
        mc::note("create " + S(type) + " -> " + S(id));
      }
      mc::check(used.back().insert(alive.back()->getStreamId()).second, "same-id", alive.back()->getStreamId().getNumericName());
      mc::check(id == want, "numbering", "got " + S(id) + " rather than " + S(want));
    } else if (op == 4) {
      mc::note("scope");
      scopes.push_back(make_unique<Resetter>());
      model.emplace_back();
      used.emplace_back();
    } else if (op == 5) {
      if (scopes.empty()) {
        break;
      }
      mc::note("end of scope");
      scopes.pop_back();
      model.pop_back();
      used.pop_back();
    } else if (op == 6) {
      mc::note("reset");
      Recordable::resetNewInstanceIds();
      model.back().clear();
      used.back().clear();
    } else if (!alive.empty()) {
      mc::note("destroy");
      alive.erase(alive.begin());
    } else {
      break;
    }
  }
  while (!scopes.empty()) {
    scopes.pop_back();
    model.pop_back();
    // what comes next is as if there had been no scope
    for (int type = 0; type < 3; ++type) {
      Rec r(type);
      mc::check(idOf(r, type) == ++model.back()[type], "numbering-after", "type " + S(type) + " got " + S(idOf(r, type)));
    }
  }
  mc::traceValidated();
}

// Many of a type
void many() {
  Recordable::resetNewInstanceIds();
  static const int kCounts[] = {0, 1, 255, 256, 257, 1000};
  const int before = kCounts[mc::choose(6, "before")], inside = kCounts[mc::choose(6, "inside")], other = mc::choose(2, "other");
  for (int k = 0; k < before; ++k) {
    Rec r(0);
    mc::check(idOf(r, 0) == k + 1, "numbering", S(k));
    Rec o(other);
    mc::check(idOf(o, other) == (other == 0 ? k + 2 : k + 1), "numbering", S(k));
    if (other == 0) {
      break;
    }
  }
  {
    Resetter scope;
    for (int k = 0; k < inside; ++k) {
      Rec r(1);
      mc::check(idOf(r, 1) == k + 1, "numbering-in-scope", S(k));
    }
  }
  Rec r(0);
  mc::check(idOf(r, 0) == (before == 0 ? 1 : other == 0 ? 3 : before + 1), "numbering-after", S(r.getRecordableInstanceId()));
}

// ---------- threads ----------
// What a thread does: digits create a recordable of the type, ( and ) start and end a scope, R resets
// the numbering in a scope
struct Made {
  int thread, type, id;
  uint64_t started, ended;
  int scope; // the outermost scope it is in, 0 for none
};

void threads(const vector<string>& programs) {
  vector<vector<Made>> made(programs.size());
  vector<vector<pair<uint64_t, uint64_t>>> scopes(programs.size());
  Recordable::resetNewInstanceIds();
  {
    Rec r(0);
  }
  auto work = [&](size_t me) {
    vector<unique_ptr<Resetter>> open;
    vector<map<int, int>> model;
    int scope = 0;
    for (char c : programs[me]) {
      if (c == '(') {
        open.push_back(make_unique<Resetter>());
        model.emplace_back();
        if (open.size() == 1) {
          ++scope;
        }
      } else if (c == ')') {
        open.pop_back();
        model.pop_back();
      } else if (c == 'R') {
        Recordable::resetNewInstanceIds();
        model.back().clear();
      } else if (c == '.') {
        sched::point("pause");
      } else {
        const int type = c - '0';
        Made m{int(me), type, 0, sched::steps(), 0, open.empty() ? 0 : scope};
        Rec r(type);
        m.id = idOf(r, type);
        m.ended = sched::steps();
        if (open.empty()) {
          made[me].push_back(m);
        } else {
          // only this thread creates recordables while the scope is alive
          const int want = ++model.back()[type];
          mc::check(m.id == want, "others-in-scope", "thread " + S(int64_t(me)) + " got " + S(m.id) + " rather than " + S(want));
        }
      }
    }
  };
  sched::Config cfg;
  sched::run(
      [&]() {
        vector<thread> ts;
        for (size_t k = 1; k < programs.size(); ++k) {
          ts.emplace_back(work, k);
        }
        work(0);
        for (auto& t : ts) {
          t.join();
        }
      },
      cfg);
  // out of scopes: distinct, with no hole, upwards
  map<int, vector<Made>> byType;
  for (auto& v : made) {
    for (auto& m : v) {
      byType[m.type].push_back(m);
      mc::transition();
    }
  }
  auto print = [&] {
    string s;
    for (auto& v : made) {
      for (auto& m : v) {
        s += "thread " + S(m.thread) + ": " + S(m.type) + "-" + S(m.id) + " at " + S(int64_t(m.started)) + "-" + S(int64_t(m.ended)) + "\n";
      }
    }
    return s;
  };
  uint64_t h = 0;
  for (auto& e : byType) {
    map<int, const Made*> ids;
    for (auto& m : e.second) {
      h = mc::hashInt(uint64_t(m.thread * 1000 + m.type * 100 + m.id), h);
      if (!ids.emplace(m.id, &m).second) {
        mc::fail("same-id", print());
      }
    }
    int next = e.first == 0 ? 2 : 1;
    for (auto& i : ids) {
      if (i.first != next++) {
        mc::fail("hole", print());
      }
    }
    for (auto& a : e.second) {
      for (auto& b : e.second) {
        if ((a.ended < b.started || (a.thread == b.thread && &a < &b)) && a.id > b.id) {
          mc::fail("not-upwards", print());
        }
      }
    }
  }
  mc::state(h);
  mc::traceValidated();
}

} // namespace

int main(int argc, char** argv) {
  bool deep = false;
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
  }
  mc::add({"sequences", sequences});
  mc::add({"many", many});
  static const vector<string> kPrograms = {"0", "00", "010", "(0)", "0(00)0", "(0.0)1", "((0)0)0", "0(0R0)0", ".(01)0."};
  auto pairs = [](const vector<string>& list, const string& name, int threadCount, int bound) {
    mc::add({name, [=] {
      vector<string> p;
      int at = 0;
      for (int k = 0; k < threadCount; ++k) {
        at += mc::choose(int(list.size()) - at, "program"); // (their order doesn't matter)
        p.push_back(list[size_t(at)]);
        if (mc::noting()) {
          mc::note("thread " + S(k) + ": " + p.back());
        }
      }
      threads(p);
    }, bound});
  };
  pairs(kPrograms, "two-threads", 2, deep ? 6 : 4);
  pairs({"00", "0(00)0", "(0.0)1", "0(0R0)0"}, "three-threads", 3, deep ? 4 : 2);
  return mc::main(argc, argv, "C24");
}
