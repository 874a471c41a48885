// Data layouts: values through records, other layouts, descriptions, altered records, copies and printing.
//   C17
#include "vrsutil.h"

#include <array>
#include <functional>
#include <limits>
#include <sstream>

#include <vrs/DataLayout.h>
#include <vrs/DataPieces.h>
#include <vrs/RecordFormat.h>
#include <vrs/RecordFormatStreamPlayer.h>
#include <vrs/os/System.h>

using namespace std;
using namespace vu;

namespace {

bool deep = false;

// ---------- contents, as text that two values share only when they're the same, bit for bit ----------
template <class T>
string bits(const T& v) {
  return string(reinterpret_cast<const char*>(std::addressof(v)), sizeof(T));
}
string bits(const string& s) {
  const uint32_t n = uint32_t(s.size());
  return string(reinterpret_cast<const char*>(&n), 4) + s;
}
template <class T>
string bitsOf(const vector<T>& v) {
  string r = S(int64_t(v.size())) + ":";
  for (const auto& e : v) {
    r += bits(e);
  }
  return r;
}
template <class T>
string bitsOf(const map<string, T>& v) {
  string r = S(int64_t(v.size())) + ":";
  for (const auto& e : v) {
    r += bits(e.first) + bits(e.second);
  }
  return r;
}

// ---------- values of each type ----------
template <class T>
struct Values {
  static vector<T> all() {
    using L = numeric_limits<T>;
    if constexpr (is_floating_point<T>::value) {
      return {T(0.1), T(0), -T(0), L::max(), L::lowest(), L::denorm_min(), L::infinity(), -L::infinity(), L::quiet_NaN(), T(1e10 / 3)};
    } else {
      return {T(7), T(0), L::max(), L::min(), T(L::max() - 1), T(L::max() / 2 + 1), T('"')};
    }
  }
};
template <>
struct Values<Bool> {
  static vector<Bool> all() {
    return {true, false};
  }
};
template <class T, size_t N>
struct Values<PointND<T, N>> {
  static vector<PointND<T, N>> all() {
    vector<PointND<T, N>> r;
    const auto v = Values<T>::all();
    for (size_t i = 0; i < v.size(); ++i) {
      PointND<T, N> p;
      for (size_t n = 0; n < N; ++n) {
        p[n] = v[(i + n) % v.size()];
      }
      r.push_back(p);
    }
    return r;
  }
};
template <class T, size_t N>
struct Values<MatrixND<T, N>> {
  static vector<MatrixND<T, N>> all() {
    vector<MatrixND<T, N>> r;
    const auto v = Values<PointND<T, N>>::all();
    for (size_t i = 0; i < v.size(); ++i) {
      MatrixND<T, N> m;
      for (size_t n = 0; n < N; ++n) {
        m[n] = v[(i + n) % v.size()];
      }
      r.push_back(m);
    }
    return r;
  }
};
template <>
struct Values<string> {
  static vector<string> all() {
    return {"a", "", string("x\0y", 3), "\"\\/\n\x01\x7f", "\xC3\xA9\xFF", string(70, 'w'), string(1, '\0')};
  }
};

// ---------- the kinds of fields ----------
struct Kind {
  string type;
  bool var = false;
  size_t size = 0; // of what's stored for fixed size ones
  vector<string> contents; // each one's bits
  string none; // what one reads without a default
  function<unique_ptr<DataPiece>(const string& label, int content)> make; // with a default, -1 for none
  function<bool(DataPiece&, int content)> put;
  function<void(DataPiece&, int content)> setDefault;
  function<bool(const DataPiece&, string& out)> get; // everything that can be got, or "!..." when the ways to get it don't agree
  function<bool(const DataPiece&, int content)> patch;
  function<const DataPiece*(const DataLayout&, const string& label)> find;
  function<string(const DataPiece&)> defaultOf; // bits
  function<void(DataPiece&)> properties; // set all of them
  function<string(const DataPiece&)> propertiesOf;
};

template <class P, class T>
void commonProperties(Kind& k) {
  k.properties = [](DataPiece& p) {
    auto& q = static_cast<P&>(p);
    const auto v = Values<T>::all();
    q.setMin(v[1 % v.size()]);
    q.setMax(v[0]);
    for (size_t i = 0; i < v.size(); ++i) {
      q.setProperty("own " + S(int64_t(i)), v[i]);
    }
    T got[3]{};
    if (!q.getMin(got[0]) || !q.getMax(got[1]) || !q.getProperty("own 0", got[2]) || bits(got[0]) != bits(v[1 % v.size()]) || bits(got[1]) != bits(v[0]) || bits(got[2]) != bits(v[0])) {
      mc::fail("a field's properties aren't those it was given", p.getLabel().substr(0, 30) + " " + p.getTypeName());
    }
  };
  k.propertiesOf = [](const DataPiece& p) {
    auto& q = static_cast<const P&>(p);
    string r;
    T v{};
    r += q.getMin(v) ? "min " + bits(v) : "no min";
    r += q.getMax(v) ? "max " + bits(v) : "no max";
    for (int i = 0; i < 20; ++i) {
      r += q.getProperty("own " + S(i), v) ? "own " + bits(v) : "none";
    }
    return r;
  };
}

template <class T>
Kind valueKind() {
  using P = DataPieceValue<T>;
  Kind k;
  const auto vals = make_shared<vector<T>>(Values<T>::all());
  k.type = "DataPieceValue<" + vrs::getTypeName<T>() + ">";
  k.size = sizeof(T);
  for (auto& v : *vals) {
    k.contents.push_back(bits(v));
  }
  k.none = bits(T{});
  k.make = [vals](const string& label, int c) -> unique_ptr<DataPiece> {
    return c < 0 ? make_unique<P>(label) : make_unique<P>(label, (*vals)[size_t(c)]);
  };
  k.put = [vals](DataPiece& p, int c) { return static_cast<P&>(p).set((*vals)[size_t(c)]); };
  k.setDefault = [vals](DataPiece& p, int c) { static_cast<P&>(p).setDefault((*vals)[size_t(c)]); };
  k.get = [](const DataPiece& p, string& out) {
    auto& q = static_cast<const P&>(p);
    T v{};
    const bool r = q.get(v);
    out = bits(v);
    if (bits(q.get()) != out || q.isAvailable() != r) {
      out = "!";
    }
    return r;
  };
  k.patch = [vals](const DataPiece& p, int c) { return static_cast<const P&>(p).patchValue((*vals)[size_t(c)]); };
  k.find = [](const DataLayout& l, const string& label) -> const DataPiece* { return l.findDataPieceValue<T>(label); };
  k.defaultOf = [](const DataPiece& p) {
    const T d = static_cast<const P&>(p).getDefault();
    return d == T{} ? bits(T{}) : bits(d); // (-0 is not told from 0)
  };
  commonProperties<P, T>(k);
  return k;
}

template <class T>
Kind arrayKind(size_t n) {
  using P = DataPieceArray<T>;
  Kind k;
  const auto all = Values<T>::all();
  const auto vals = make_shared<vector<vector<T>>>();
  for (size_t i = 0; i < all.size(); ++i) {
    vector<T> v;
    for (size_t j = 0; j < n; ++j) {
      v.push_back(all[(i + j) % all.size()]);
    }
    vals->push_back(v);
  }
  vals->push_back(vector<T>(n, T{}));
  k.type = "DataPieceArray<" + vrs::getTypeName<T>() + ">[" + S(int64_t(n)) + "]";
  k.size = sizeof(T) * n;
  for (auto& v : *vals) {
    k.contents.push_back(bitsOf(v));
  }
  k.none = bitsOf(vector<T>());
  k.make = [vals, n](const string& label, int c) -> unique_ptr<DataPiece> {
    auto p = make_unique<P>(label, n);
    if (c >= 0) {
      p->setDefault((*vals)[size_t(c)]);
    }
    return p;
  };
  k.put = [vals, n](DataPiece& p, int c) {
    auto& q = static_cast<P&>(p);
    const auto& v = (*vals)[size_t(c)];
    if (c % 3 == 0) {
      return q.set(v);
    } else if (c % 3 == 1) {
      bool r = true;
      for (size_t i = 0; i < n; ++i) {
        r = q.set(v[i], i) && r;
      }
      return r && !q.set(v[0], n);
    }
    // more values than the array has, or fewer
    vector<T> w = v;
    w.push_back(v[0]);
    return q.set(w.data(), w.size());
  };
  k.setDefault = [vals](DataPiece& p, int c) { static_cast<P&>(p).setDefault((*vals)[size_t(c)]); };
  k.get = [n](const DataPiece& p, string& out) {
    auto& q = static_cast<const P&>(p);
    vector<T> v(1);
    const bool r = q.get(v);
    out = bitsOf(v);
    vector<T> w(n), u(n), few(n);
    const bool r2 = q.get(w.data(), n);
    const bool r4 = q.get(few.data(), n - 1);
    bool same = q.isAvailable() == r && r2 == r && (n == 1 || r4 == r);
    for (size_t i = 0; i < n; ++i) {
      same = q.get(u[i], i) == r && same;
      const T x = i < v.size() ? v[i] : T{};
      same = same && bits(w[i]) == bits(x) && bits(u[i]) == bits(x) && (i == n - 1 || bits(few[i]) == bits(x));
    }
    T y{};
    if (!same || q.getArraySize() != n || q.get(y, n)) {
      out = "!";
    }
    return r;
  };
  k.patch = [vals](const DataPiece& p, int c) {
    const auto& v = (*vals)[size_t(c)];
    return static_cast<const P&>(p).patchValue(v.data(), v.size());
  };
  k.find = [n](const DataLayout& l, const string& label) -> const DataPiece* { return l.findDataPieceArray<T>(label, n); };
  k.defaultOf = [](const DataPiece& p) { return bitsOf(static_cast<const P&>(p).getDefault()); };
  commonProperties<P, T>(k);
  return k;
}

template <class P, class V>
void varKind(Kind& k, shared_ptr<vector<V>> vals) {
  k.var = true;
  for (auto& v : *vals) {
    k.contents.push_back(bitsOf(v));
  }
  k.none = bitsOf(V());
  k.make = [vals](const string& label, int c) -> unique_ptr<DataPiece> {
    return c < 0 ? make_unique<P>(label) : make_unique<P>(label, (*vals)[size_t(c)]);
  };
  k.put = [vals](DataPiece& p, int c) {
    auto& q = static_cast<P&>(p);
    if (c % 2 == 0) {
      q.stage((*vals)[size_t(c)]);
    } else {
      V v = (*vals)[size_t(c)];
      q.stage(std::move(v));
    }
    return bitsOf(q.stagedValues()) == bitsOf((*vals)[size_t(c)]);
  };
  k.setDefault = [vals](DataPiece& p, int c) { static_cast<P&>(p).setDefault((*vals)[size_t(c)]); };
  k.patch = [vals](const DataPiece& p, int c) { return static_cast<const P&>(p).patchValue((*vals)[size_t(c)]); };
  k.defaultOf = [](const DataPiece& p) { return bitsOf(static_cast<const P&>(p).getDefault()); };
  k.get = [](const DataPiece& p, string& out) {
    auto& q = static_cast<const P&>(p);
    V v;
    const bool r = q.get(v);
    out = bitsOf(v);
    if (q.isAvailable() != r) {
      out = "!";
    }
    return r;
  };
}

template <class T>
Kind vectorKind() {
  Kind k;
  k.type = "DataPieceVector<" + vrs::getTypeName<T>() + ">";
  const auto all = Values<T>::all();
  auto vals = make_shared<vector<vector<T>>>();
  vals->push_back({all[0]});
  vals->push_back({});
  vals->push_back(all);
  vals->push_back({all[1], all[0]});
  vals->push_back({all[1 % all.size()]});
  vals->push_back({all.back(), all[1], all.back()});
  varKind<DataPieceVector<T>>(k, vals);
  k.find = [](const DataLayout& l, const string& label) -> const DataPiece* { return l.findDataPieceVector<T>(label); };
  return k;
}

template <class T>
Kind mapKind() {
  Kind k;
  k.type = "DataPieceStringMap<" + vrs::getTypeName<T>() + ">";
  const auto all = Values<T>::all();
  const auto keys = Values<string>::all();
  auto vals = make_shared<vector<map<string, T>>>();
  vals->push_back({{"key", all[0]}});
  vals->push_back({});
  map<string, T> m;
  for (size_t i = 0; i < keys.size(); ++i) {
    m[keys[i]] = all[i % all.size()];
  }
  vals->push_back(m);
  vals->push_back({{"", all.back()}});
  vals->push_back({{"b", all[1]}, {"a", all[0]}});
  varKind<DataPieceStringMap<T>>(k, vals);
  k.find = [](const DataLayout& l, const string& label) -> const DataPiece* { return l.findDataPieceStringMap<T>(label); };
  return k;
}

Kind stringKind() {
  Kind k;
  k.type = "DataPieceString";
  k.var = true;
  const auto vals = make_shared<vector<string>>(Values<string>::all());
  for (auto& v : *vals) {
    k.contents.push_back(bits(v));
  }
  k.none = bits(string());
  using P = DataPieceString;
  k.make = [vals](const string& label, int c) -> unique_ptr<DataPiece> {
    return c < 0 ? make_unique<P>(label) : make_unique<P>(label, (*vals)[size_t(c)]);
  };
  k.put = [vals](DataPiece& p, int c) {
    static_cast<P&>(p).stage((*vals)[size_t(c)]);
    return static_cast<P&>(p).stagedValue() == (*vals)[size_t(c)];
  };
  k.setDefault = [vals](DataPiece& p, int c) { static_cast<P&>(p).setDefault((*vals)[size_t(c)]); };
  k.get = [](const DataPiece& p, string& out) {
    auto& q = static_cast<const P&>(p);
    string v = "?";
    const bool r = q.get(v);
    out = bits(v);
    if (q.get() != v || q.isAvailable() != r) {
      out = "!";
    }
    return r;
  };
  k.patch = [vals](const DataPiece& p, int c) { return static_cast<const P&>(p).patchValue((*vals)[size_t(c)]); };
  k.find = [](const DataLayout& l, const string& label) -> const DataPiece* { return l.findDataPieceString(label); };
  k.defaultOf = [](const DataPiece& p) { return bits(static_cast<const P&>(p).getDefault()); };
  return k;
}

// All the kinds; the first kFew are those that combinations use.
size_t kFew = 0;
const vector<Kind>& kinds() {
  static const vector<Kind> all = [] {
    vector<Kind> r{
        valueKind<uint8_t>(), stringKind(), vectorKind<string>(), valueKind<double>(), arrayKind<uint16_t>(3), vectorKind<uint8_t>(), mapKind<int32_t>(), arrayKind<uint16_t>(2), valueKind<Point3Df>(), vectorKind<double>(), mapKind<string>(), valueKind<Bool>(), arrayKind<Point2Dd>(2), vectorKind<Matrix2Di>(),
    };
    kFew = r.size();
#define POD_MACRO(T)             \
  r.push_back(valueKind<T>());   \
  r.push_back(arrayKind<T>(1));  \
  r.push_back(arrayKind<T>(3));  \
  r.push_back(vectorKind<T>());  \
  r.push_back(mapKind<T>());
#include <vrs/helpers/PODMacro.inc>
    return r;
  }();
  return all;
}

// ---------- layouts ----------
struct Field {
  string label;
  const Kind* kind = nullptr;
  int def = -1;
  bool required = false;
  bool extras = false; // tags and properties
};
string str(const vector<Field>& f) {
  string r;
  for (auto& x : f) {
    r += (r.empty() ? "" : ", ") + x.label.substr(0, 30) + " " + x.kind->type + (x.def >= 0 ? " default " + S(x.def) : "") + (x.required ? " required" : "");
  }
  return "{" + r + "}";
}
struct Layout : public ManualDataLayout {
  vector<DataPiece*> pieces;
  explicit Layout(const vector<Field>& fields) {
    grow(fields);
    endLayout();
  }
  // a clone, with more fields
  Layout(const DataLayout& other, const vector<Field>& original, const vector<Field>& more) : ManualDataLayout(other) {
    // clones have the fixed size fields first
    vector<DataPiece*> got;
    forEachDataPiece([&](DataPiece* p) { got.push_back(p); });
    size_t at = 0;
    pieces.resize(original.size());
    for (bool var : {false, true}) {
      for (size_t i = 0; i < original.size(); ++i) {
        if (original[i].kind->var == var) {
          pieces[i] = got[at++];
        }
      }
    }
    grow(more);
    endLayout();
  }
  void grow(const vector<Field>& fields) {
    for (auto& f : fields) {
      pieces.push_back(add(f.kind->make(f.label, f.def)));
      pieces.back()->setRequired(f.required);
      if (f.extras) {
        pieces.back()->setTag("tag", "\"v\"");
        pieces.back()->setTag("", string("\0\xC3\xA9\n", 4));
        pieces.back()->setTag(string("n\0", 2), "");
        pieces.back()->setUnit("m/s");
        if (f.kind->properties) {
          f.kind->properties(*pieces.back());
        }
      }
    }
  }
};
// The layout that a record is read with, made on demand by RecordFormatStreamPlayer
vector<Field> gExpected;
struct Expected : public Layout {
  Expected() : Layout(gExpected) {}
};

bool value(const Field& f, const DataPiece* p, string& out) {
  return f.kind->get(*p, out);
}
string none(const Field& f) {
  return f.def < 0 ? f.kind->none : f.kind->contents[size_t(f.def)];
}
string hex(const string& s) {
  string r;
  for (uint8_t c : s.substr(0, 60)) {
    char b[4];
    snprintf(b, sizeof(b), "%02x", c);
    r += b;
  }
  return r;
}

// ---------- files of records with a layout ----------
struct Source : public Dev {
  using Dev::Dev;
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
  void format(uint32_t version, const DataLayout& l) {
    if (!addRecordFormat(Type::DATA, version, l.getContentBlock(), {&l})) {
      mc::fail("a layout's record format is refused", l.getListOfPiecesSpec());
    }
  }
  void createWith(double ts, uint32_t version, DataLayout& l) {
    createRecord(ts, Type::DATA, version, DataSource(l));
  }
};
struct Player : public RecordFormatStreamPlayer {
  function<void(const CurrentRecord&, DataLayout&)> on;
  size_t calls = 0;
  bool onDataLayoutRead(const CurrentRecord& r, size_t, DataLayout& layout) override {
    ++calls;
    on(r, layout);
    return true;
  }
  template <class T>
  T& expected(DataLayout& l) {
    return getExpectedLayout<T>(l, 0);
  }
};
void readAll(const string& path, Player& p, const function<void(size_t)>& after = {}) {
  RecordFileReader reader;
  mc::check(reader.openFile(path) == 0, "open");
  mc::check(reader.getStreams().size() == 1, "one stream");
  reader.setStreamPlayer(*reader.getStreams().begin(), &p);
  size_t k = 0;
  for (auto& info : reader.getIndex()) {
    const int rc = reader.readRecord(info);
    if (rc != 0) {
      mc::fail("reading a record fails", S(rc));
    }
    if (after) {
      after(k);
    }
    ++k;
  }
  reader.closeFile();
}

// that all the fields of a layout have these contents
void checkAll(const char* what, const vector<Field>& fields, const vector<DataPiece*>& pieces, const vector<int>& content, bool present = true) {
  for (size_t i = 0; i < fields.size(); ++i) {
    string got;
    const bool r = value(fields[i], pieces[i], got);
    const string& want = fields[i].kind->contents[size_t(content[i])];
    if (r != present || got != want) {
      mc::fail(what, str(fields) + " field " + S(int64_t(i)) + " content " + S(content[i]) + ": " + (r ? "" : "(not available) ") + hex(got) + " rather than " + hex(want));
    }
    mc::transition();
  }
}

// Layouts of these fields, with all combinations of contents up to `most`, written and read back.
void roundOf(const vector<Field>& fields, size_t most) {
  vector<vector<int>> recs;
  vector<int> at(fields.size(), 0);
  size_t total = 1;
  for (auto& f : fields) {
    total *= f.kind->contents.size();
  }
  if (total <= most) {
    for (size_t n = 0; n < total; ++n) {
      size_t m = n;
      for (size_t i = 0; i < fields.size(); ++i) {
        at[i] = int(m % fields[i].kind->contents.size());
        m /= fields[i].kind->contents.size();
      }
      recs.push_back(at);
    }
  } else {
    for (size_t n = 0; n < most; ++n) {
      for (size_t i = 0; i < fields.size(); ++i) {
        // strides that differ, so that contents meet in all sorts of ways
        at[i] = int((n * (2 * i + 1) + n / (i + 2)) % fields[i].kind->contents.size());
      }
      recs.push_back(at);
    }
  }
  const string path = mc::scratch() + "/l.vrs";
  Recordable::resetNewInstanceIds();
  Layout writer(fields);
  {
    RecordFileWriter w;
    Source dev;
    w.addRecordable(&dev);
    dev.format(1, writer);
    double t = 1;
    for (auto& r : recs) {
      for (size_t i = 0; i < fields.size(); ++i) {
        if (!fields[i].kind->put(*writer.pieces[i], r[i])) {
          mc::fail("a field can't be set", str(fields));
        }
      }
      dev.createWith(t++, 1, writer);
    }
    mc::check(w.writeToFile(path) == 0, "write");
  }
  gExpected = fields;
  Player p;
  size_t k = 0;
  p.on = [&](const CurrentRecord&, DataLayout& layout) {
    const auto& r = recs[k];
    if (k == 0 && !layout.isSame(writer)) {
      bool nan = false;
      for (auto& f : fields) {
        nan = nan || f.def >= 0;
      }
      if (!nan) {
        mc::fail("the layout read isn't the one written", str(fields) + layout.getListOfPiecesSpec());
      }
    }
    auto& mine = p.expected<Expected>(layout);
    if (!mine.isMapped() || !mine.hasAllRequiredPieces()) {
      mc::fail("a layout isn't mapped on itself", str(fields));
    }
    checkAll("a value isn't read back as it was set", fields, mine.pieces, r);
    if (k < 3) {
      for (size_t i = 0; i < fields.size(); ++i) {
        bool dup = false;
        for (size_t j = 0; j < i; ++j) {
          dup = dup || (fields[j].label == fields[i].label && fields[j].kind == fields[i].kind);
        }
        if (dup) {
          continue;
        }
        const DataPiece* found = fields[i].kind->find(layout, fields[i].label);
        string got;
        if (found == nullptr || !value(fields[i], found, got) || got != fields[i].kind->contents[size_t(r[i])]) {
          mc::fail("a field isn't found in the layout that was read", str(fields) + " field " + S(int64_t(i)));
        }
      }
    }
  };
  readAll(path, p, [&](size_t i) {
    if (p.calls != i + 1) {
      mc::fail("a layout isn't given", str(fields));
    }
    ++k;
  });
  mc::check(k == recs.size(), "the number of records");
  mc::traceValidated(k);
}

const char* kLabels[] = {"x", "y/z", "w"};

void roundAny() {
  const auto& all = kinds();
  const int n = mc::choose(3, "fields");
  if (n == 0) {
    // every kind, alone and with itself
    const Kind& k = mc::pick(all, "kind");
    roundOf({{"x", &k}}, 1000);
    roundOf({{"x", &k}, {"y", &k}}, 200);
    roundOf({{"x", &k}, {"x", &k}}, 20);
    roundOf({{"", &k, 0, true, true}, {string("n\0\"", 3), &k, int(k.contents.size()) - 1, false, true}}, 20);
  } else {
    vector<Field> f;
    const int count = n == 1 ? 2 : 4;
    for (int i = 0; i < count + 1; ++i) {
      if (i == count && n == 2) {
        break;
      }
      f.push_back({i < 3 ? kLabels[i] : "v", &all[size_t(mc::choose(int(n == 1 ? kFew : 8), "kind"))]});
    }
    roundOf(f, n == 1 ? 60 : 40);
  }
}

// ---------- reading with another layout ----------
void evolve() {
  const auto& all = kinds();
  static const vector<int> used{0, 3, 4, 7, 1, 5, 2, 6}; // several of the same element type, in different containers
  const int usedCount = 8;
  auto pickField = [&](const char* what) {
    Field f;
    const int c = mc::choose(2 * usedCount, what);
    f.label = c % 2 == 0 ? "x" : "y";
    f.kind = &all[size_t(used[size_t(c / 2)])];
    return f;
  };
  vector<Field> writerFields, readerFields;
  const int wn = mc::choose(3, "written");
  for (int i = 0; i < wn; ++i) {
    writerFields.push_back(pickField("written field"));
  }
  const int rn = 1 + mc::choose(2, "read");
  for (int i = 0; i < rn; ++i) {
    readerFields.push_back(pickField("read field"));
  }
  auto same = [](const Field& a, const Field& b) { return a.label == b.label && a.kind == b.kind; };
  // (which one of several identical fields is meant isn't said)
  if ((wn == 2 && same(writerFields[0], writerFields[1])) || (rn == 2 && same(readerFields[0], readerFields[1]))) {
    return;
  }
  const string path = mc::scratch() + "/e.vrs";
  Recordable::resetNewInstanceIds();
  vector<vector<int>> recs;
  {
    Layout writer(writerFields);
    RecordFileWriter w;
    Source dev;
    w.addRecordable(&dev);
    dev.format(1, writer);
    double t = 1;
    for (int r = 0; r < 7; ++r) {
      vector<int> c;
      for (size_t i = 0; i < writerFields.size(); ++i) {
        c.push_back((r + int(i) * 2) % int(writerFields[i].kind->contents.size()));
        writerFields[i].kind->put(*writer.pieces[i], c.back());
      }
      recs.push_back(c);
      dev.createWith(t++, 1, writer);
    }
    mc::check(w.writeToFile(path) == 0, "write");
  }
  for (int defs = 0; defs < 3; ++defs) {
    for (int required = 0; required < (1 << rn); ++required) {
      if (!deep && required != (defs == 0 ? (1 << rn) - 1 : defs - 1)) {
        continue;
      }
      for (int i = 0; i < rn; ++i) {
        readerFields[size_t(i)].def = defs == 0 ? -1 : defs == 1 ? 0 : 2;
        readerFields[size_t(i)].required = ((required >> i) & 1) != 0;
      }
      gExpected = readerFields;
      Player p;
      size_t k = 0;
      p.on = [&](const CurrentRecord&, DataLayout& layout) {
        auto& mine = p.expected<Expected>(layout);
        bool allRequired = true;
        size_t fixed = 0, var = 0;
        for (size_t i = 0; i < readerFields.size(); ++i) {
          const Field& f = readerFields[i];
          int found = -1;
          for (size_t j = 0; j < writerFields.size(); ++j) {
            if (same(f, writerFields[j])) {
              found = int(j);
            }
          }
          string got;
          const bool r = value(f, mine.pieces[i], got);
          const string want = found < 0 ? none(f) : f.kind->contents[size_t(recs[k][size_t(found)])];
          if (got != want || r != (found >= 0) || mine.pieces[i]->isMapped() != (found >= 0)) {
            mc::fail(found < 0 ? "a field that was not stored isn't its default" : "a stored field isn't read back with another layout", str(writerFields) + " read with " + str(readerFields) + " field " + S(int64_t(i)) + ", record " + S(int64_t(k)) + ": " + (r ? "" : "(not available) ") + hex(got) + " rather than " + hex(want));
          }
          allRequired = allRequired && (found >= 0 || !f.required);
          (f.kind->var ? var : fixed) += found >= 0;
          mc::transition();
        }
        if (!mine.isMapped() || mine.hasAllRequiredPieces() != allRequired) {
          mc::fail("whether the required fields are there isn't told", str(writerFields) + " read with " + str(readerFields));
        }
        if (mine.getAvailableFixedDataPiecesCount() != fixed || mine.getAvailableVarDataPiecesCount() != var) {
          mc::fail("the fields available aren't counted", str(writerFields) + " read with " + str(readerFields));
        }
      };
      readAll(path, p, [&](size_t) { ++k; });
      if (p.calls != recs.size()) {
        mc::fail("a layout isn't given", str(writerFields));
      }
      mc::traceValidated();
    }
  }
}

// ---------- descriptions ----------
string described(const vector<Field>& fields, const DataLayout& l) {
  // what the accessors tell of a layout's fields, the fixed size ones first
  string r;
  vector<const DataPiece*> got;
  l.forEachDataPiece([&](const DataPiece* p) { got.push_back(p); });
  size_t at = 0;
  for (bool var : {false, true}) {
    for (auto& f : fields) {
      if (f.kind->var == var) {
        if (at >= got.size()) {
          return r + "missing";
        }
        const DataPiece* p = got[at++];
        const bool isKind = p->getTypeName() == f.kind->type.substr(0, f.kind->type.find('[')) && (var || p->getFixedSize() == f.kind->size);
        r += p->getLabel() + "|" + p->getTypeName() + "|" + S(int64_t(p->getFixedSize())) + "|" + S(int64_t(p->getOffset())) + (p->isRequired() ? "|required" : "");
        for (const string& name : {string("tag"), string(), string("n\0", 2), string("unit"), string("description")}) {
          string t;
          r += p->getTag(name, t) ? "|" + bits(t) : string("|");
        }
        if (isKind) {
          r += "|" + f.kind->defaultOf(*p) + (f.kind->propertiesOf ? f.kind->propertiesOf(*p) : "");
        }
      }
    }
  }
  return r + S(int64_t(got.size()));
}
void descriptionOf(const vector<Field>& fields) {
  Layout l(fields);
  const string want = described(fields, l);
  const string json = l.asJson();
  auto back = DataLayout::makeFromJson(json);
  auto differ = [&](const char* what, const DataLayout& other) {
    const string d = described(fields, other);
    size_t i = 0;
    while (i < d.size() && i < want.size() && d[i] == want[i]) {
      ++i;
    }
    mc::fail(what, str(fields) + " at " + S(int64_t(i)) + " " + hex(want.substr(i > 8 ? i - 8 : 0, 24)) + " / " + hex(d.substr(i > 8 ? i - 8 : 0, 24)) + " of " + json.substr(0, 600));
  };
  if (described(fields, *back) != want) {
    differ("a layout made from a layout's description isn't the same", *back);
  }
  if (back->asJson() != json || back->getListOfPiecesSpec() != l.getListOfPiecesSpec() || back->getFixedDataSizeNeeded() != l.getFixedDataSizeNeeded() || back->getContentBlock() != l.getContentBlock()) {
    mc::fail("a layout made from a layout's description doesn't have the same description", json.substr(0, 600) + " / " + back->asJson().substr(0, 600));
  }
  ManualDataLayout clone(static_cast<const DataLayout&>(l));
  clone.endLayout();
  if (described(fields, clone) != want || clone.asJson() != json) {
    differ("a clone of a layout isn't the same", clone);
  }
  bool nan = false; // those aren't equal to themselves
  for (auto& f : fields) {
    const string& t = f.kind->type;
    nan = nan || ((f.def >= 0 || f.extras) && t.find("<int") == string::npos && t.find("<uint") == string::npos && t.find("string>") == string::npos && t != "DataPieceString" && t.find("Bool") == string::npos);
  }
  if (!nan && (!l.isSame(*back) || !back->isSame(l) || !l.isSame(clone) || !l.isSame(l))) {
    mc::fail("a layout made from a layout's description doesn't compare equal", json.substr(0, 600));
  }
  for (auto p : {JsonFormatProfile::VrsFormat, JsonFormatProfile::ExternalCompact, JsonFormatProfile::ExternalPretty, JsonFormatProfile::Public}) {
    const string text = l.asJson(p);
    if (text.empty() || text.front() != '{' || text.back() != '}') {
      mc::fail("a layout isn't given as json", text.substr(0, 300));
    }
  }
  mc::transition();
}
void descriptions() {
  const auto& all = kinds();
  if (mc::choose(2, "how") == 0) {
    const Kind& k = mc::pick(all, "kind");
    for (int def = -1; def < int(k.contents.size()); ++def) {
      for (int flags = 0; flags < 4; ++flags) {
        for (const string& label : {string("x"), string(), string("n\0\"", 3), string("\xC3\xA9/\\")}) {
          descriptionOf({{label, &k, def, (flags & 1) != 0, (flags & 2) != 0}});
        }
      }
    }
  } else {
    const Kind& a = all[size_t(mc::choose(int(kFew), "kind"))];
    const Kind& b = all[size_t(mc::choose(int(kFew), "kind"))];
    for (size_t c = 0; c < kFew; ++c) {
      descriptionOf({{"x", &a, 0, true}, {"y", &b}, {"x", &all[c], int(all[c].contents.size()) - 1, false, true}});
      // two layouts that differ are told apart
      const vector<Field> f{{"x", &a}, {"y", &b}};
      Layout one(f), other({{"x", &a}, {"y", &all[c]}});
      if (one.isSame(other) != (&all[c] == &b)) {
        mc::fail("layouts of different fields compare equal", str(f) + all[c].type);
      }
    }
  }
  mc::traceValidated();
}

// Descriptions that are damaged are refused or read as something, that can then be used.
void useOf(DataLayout& l) {
  stringstream out;
  l.printLayout(out, "");
  l.printLayoutCompact(out, "");
  l.initDataPiecesToDefaultValue();
  l.collectVariableDataAndUpdateIndex();
  const string json = l.asJson();
  if (DataLayout::makeFromJson(json)->asJson(JsonFormatProfile::VrsFormat).empty()) {
    mc::fail("a layout can't be described", json.substr(0, 300));
  }
  l.printLayout(out, "");
  l.printLayoutCompact(out, "");
  mc::transition();
}
void damagedDescriptions() {
  const auto& all = kinds();
  const size_t a = size_t(mc::choose(int(kFew), "kind"));
  const string json = [&] {
    Layout l({{"x", &all[a], 0, true, true}, {"y", &all[1], 0, false, false}});
    return l.asJson();
  }();
  if (mc::choose(2, "how") == 0) {
    for (size_t n = 0; n < json.size(); ++n) {
      useOf(*DataLayout::makeFromJson(json.substr(0, n)));
      for (char c : string("\"{}[],:0-xe.\0", 13)) {
        string s = json;
        s[n] = c;
        useOf(*DataLayout::makeFromJson(s));
      }
    }
  } else {
    // each value replaced by others: where values begin, and end
    vector<pair<size_t, size_t>> places;
    for (size_t i = 0; i < json.size(); ++i) {
      if (json[i] == '"') {
        const size_t b = i++;
        while (i < json.size() && json[i] != '"') {
          i += json[i] == '\\' ? 2 : 1;
        }
        places.push_back({b, i + 1});
      } else if (json[i] == '{' || json[i] == '[') {
        int depth = 0;
        size_t e = i;
        bool quoted = false;
        for (; e < json.size(); ++e) {
          if (quoted) {
            if (json[e] == '\\') {
              ++e;
            } else if (json[e] == '"') {
              quoted = false;
            }
          } else if (json[e] == '"') {
            quoted = true;
          } else if (json[e] == '{' || json[e] == '[') {
            ++depth;
          } else if ((json[e] == '}' || json[e] == ']') && --depth == 0) {
            break;
          }
        }
        places.push_back({i, e + 1});
      } else if (isdigit(json[i]) || json[i] == '-' || json[i] == 't' || json[i] == 'f' || json[i] == 'N' || json[i] == 'I') {
        const size_t b = i;
        while (i < json.size() && strchr(",]}:", json[i]) == nullptr) {
          ++i;
        }
        places.push_back({b, i});
        --i;
      }
    }
    for (auto& pl : places) {
      for (const char* with : {"null", "0", "-1", "1000", "18446744073709551615", "1e300", "\"\"", "\"x\"", "\"DataPieceArray<Matrix4Dd>\"", "\"DataPieceVector<string>\"", "\"DataPieceStringMap<Point2Dd>\"", "\"DataPieceValue<Matrix2Di>\"", "[]", "{}", "[[1,2],[3,4]]", "[1,\"a\",null,[1],{}]", "{\"a\":1,\"a\":2,\"\":\"b\",\"c\":[1,2]}", "true", "NaN", "Infinity"}) {
        string s = json;
        s.replace(pl.first, pl.second - pl.first, with);
        useOf(*DataLayout::makeFromJson(s));
      }
    }
  }
  mc::traceValidated();
}

// ---------- damaged records ----------
void damagedRecords() {
  const auto& all = kinds();
  vector<Field> fields;
  const int n = 1 + mc::choose(2, "fields");
  for (int i = 0; i < n; ++i) {
    fields.push_back({kLabels[i], &all[size_t(mc::choose(int(kFew), "kind"))], 0});
  }
  const string path = mc::scratch() + "/d.vrs";
  Recordable::resetNewInstanceIds();
  struct R {
    vector<uint8_t> bytes;
    bool whole;
    vector<int> content;
  };
  vector<R> recs;
  size_t fixed = 0, vars = 0;
  {
    Layout writer(fields);
    fixed = writer.getFixedDataSizeNeeded();
    for (auto& f : fields) {
      vars += f.kind->var;
    }
    RecordFileWriter w;
    Source dev;
    w.addRecordable(&dev);
    dev.format(1, writer);
    for (int c : {0, 2, 1}) {
      vector<int> content;
      for (size_t i = 0; i < fields.size(); ++i) {
        content.push_back((c + int(i)) % int(fields[i].kind->contents.size()));
        fields[i].kind->put(*writer.pieces[i], content.back());
      }
      writer.collectVariableDataAndUpdateIndex();
      vector<int8_t> raw;
      writer.getRawData(raw);
      const vector<uint8_t> bytes(raw.begin(), raw.end());
      recs.push_back({bytes, true, content});
      for (size_t len = 0; len < bytes.size(); ++len) {
        recs.push_back({vector<uint8_t>(bytes.begin(), bytes.begin() + long(len)), false, content});
      }
      // longer than needed: what follows is another block's
      auto longer = bytes;
      longer.resize(longer.size() + 3, 0xEE);
      recs.push_back({longer, true, content});
      // the index and the variable size data altered
      for (size_t at = fixed - vars * 8; at + 4 <= bytes.size(); ++at) {
        uint32_t now = 0;
        memcpy(&now, &bytes[at], 4);
        if (at < fixed && (at - fixed) % 4 != 0) {
          continue;
        }
        for (uint32_t v : {0u, 1u, now + 1, now - 1, uint32_t(bytes.size() - fixed), uint32_t(bytes.size() - fixed) + 1, 0x3FFFFFFFu, 0x40000000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFCu, 0xFFFFFFFFu}) {
          if (v != now) {
            auto b = bytes;
            memcpy(&b[at], &v, 4);
            recs.push_back({b, false, content});
            if (vars > 0 && at + 4 == fixed && deep) {
              b.resize(b.size() + 40, 0xFF);
              recs.push_back({b, false, content});
            }
          }
        }
      }
    }
    double t = 1;
    for (auto& r : recs) {
      dev.create(t++, Type::DATA, 1, r.bytes);
    }
    mc::check(w.writeToFile(path) == 0, "write");
  }
  gExpected = fields;
  Player p;
  size_t k = 0;
  p.on = [&](const CurrentRecord&, DataLayout& layout) {
    const R& r = recs[k];
    // the data that the layout may use
    const vector<int8_t> f = layout.getFixedData(), v = layout.getVarData();
    if (f.size() != fixed || f.size() + v.size() > r.bytes.size() || memcmp(f.data(), r.bytes.data(), f.size()) != 0 || (!v.empty() && memcmp(v.data(), &r.bytes[f.size()], v.size()) != 0)) {
      mc::fail("a layout's data isn't what the record has", str(fields) + " record " + S(int64_t(k)) + " of " + S(int64_t(r.bytes.size())) + " bytes");
    }
    auto& mine = p.expected<Expected>(layout);
    if (r.whole) {
      checkAll("a value isn't read back as it was set", fields, mine.pieces, r.content);
    }
    for (size_t i = 0; i < fields.size(); ++i) {
      string got;
      const bool ok = fields[i].kind->get(*mine.pieces[i], got);
      if (!ok && got != "!" && got != none(fields[i])) {
        mc::fail("a field that can't be read isn't its default", str(fields) + " record " + S(int64_t(k)));
      }
      if (got.size() > r.bytes.size() + 200) {
        mc::fail("a field has more than the record", str(fields) + " record " + S(int64_t(k)) + " " + S(int64_t(got.size())));
      }
    }
    stringstream out;
    layout.printLayout(out, " ");
    layout.printLayoutCompact(out, " ");
    mine.printLayout(out, " ");
    layout.asJson(JsonFormatProfile::ExternalCompact);
    layout.isVarDataIndexValid();
    if (r.whole && !layout.isVarDataIndexValid()) {
      mc::fail("the index of a record's variable size data is told invalid", str(fields));
    }
    layout.stageCurrentValues();
    mc::transition();
  };
  size_t calls = 0;
  readAll(path, p, [&](size_t) {
    const R& r = recs[k];
    // enough?
    bool enough = r.bytes.size() >= fixed;
    if (enough && vars > 0) {
      uint32_t last[2];
      memcpy(last, &r.bytes[fixed - 8], 8);
      enough = uint64_t(last[0]) + last[1] <= r.bytes.size() - fixed;
    }
    if ((p.calls > calls) != enough) {
      mc::fail(enough ? "a layout isn't given, though it's all there" : "a layout is given, though it's cut", str(fields) + " record " + S(int64_t(k)) + " of " + S(int64_t(r.bytes.size())) + " bytes");
    }
    calls = p.calls;
    ++k;
  });
  mc::traceValidated(k);
}

// ---------- copies and edits ----------
void edits() {
  const auto& all = kinds();
  vector<Field> fields;
  const int n = 2 + mc::choose(2, "fields");
  for (int i = 0; i < n; ++i) {
    fields.push_back({kLabels[i], &all[size_t(mc::choose(i < 2 || deep ? int(kFew) : 10, "kind"))], 0});
  }
  const string path = mc::scratch() + "/c.vrs";
  Recordable::resetNewInstanceIds();
  const int kRecords = 4;
  auto content = [&](int r) {
    vector<int> c;
    for (size_t i = 0; i < fields.size(); ++i) {
      c.push_back((r + int(i)) % int(fields[i].kind->contents.size()));
    }
    return c;
  };
  {
    Layout writer(fields);
    RecordFileWriter w;
    Source dev;
    w.addRecordable(&dev);
    dev.format(1, writer);
    for (int r = 0; r < kRecords; ++r) {
      const auto c = content(r);
      for (size_t i = 0; i < fields.size(); ++i) {
        fields[i].kind->put(*writer.pieces[i], c[i]);
      }
      dev.createWith(1 + r, 1, writer);
    }
    // the defaults
    writer.initDataPiecesToDefaultValue();
    dev.createWith(1 + kRecords, 1, writer);
    mc::check(w.writeToFile(path) == 0, "write");
  }
  gExpected = fields;
  Player p;
  int k = 0;
  p.on = [&](const CurrentRecord& record, DataLayout& layout) {
    auto& mine = p.expected<Expected>(layout);
    const auto c = k < kRecords ? content(k) : vector<int>(fields.size(), 0);
    checkAll("a value isn't read back as it was set", fields, mine.pieces, c);
    (void)record;
    vector<int8_t> raw, again;
    layout.getRawData(raw);
    vector<int8_t> viaMapped;
    mine.getRawData(viaMapped);
    if (raw != viaMapped) {
      mc::fail("a mapped layout's data isn't what it's mapped on", str(fields));
    }
    // staged, the same record is made again
    layout.stageCurrentValues();
    DataSource source(layout);
    vector<uint8_t> made(source.getDataSize());
    source.copyTo(made.data());
    if (made.size() != raw.size() || memcmp(made.data(), raw.data(), raw.size()) != 0) {
      mc::fail("a layout read and staged doesn't make the same record", str(fields));
    }
    // each clone with others, before and after other fields
    for (bool mapped : {false, true}) {
      for (const auto& more : vector<vector<Field>>{{}, {{"m0", &all[0], 2}, {"m1", &all[1], 2}}, {{"m2", &all[3], 0}}, {{"m3", &all[5], 0}}}) {
        Layout clone(mapped ? static_cast<DataLayout&>(mine) : layout, fields, more);
        clone.initDataPiecesToDefaultValue();
        if (!clone.copyClonedDataPieceValues(mapped ? static_cast<DataLayout&>(mine) : layout)) {
          mc::fail("values can't be copied to a clone", str(fields));
        }
        clone.collectVariableDataAndUpdateIndex();
        checkAll("a clone isn't given the values of the original", fields, clone.pieces, c);
        vector<int> md;
        for (auto& f : more) {
          md.push_back(f.def);
        }
        checkAll("copying values to a clone changes the other fields", more, vector<DataPiece*>(clone.pieces.begin() + long(fields.size()), clone.pieces.end()), md);
      }
    }
    {
      Layout copy(fields);
      if (copy.copyDataPieceValuesFromMappedLayout(mine) != fields.size()) {
        mc::fail("values aren't copied from a mapped layout", str(fields));
      }
      copy.collectVariableDataAndUpdateIndex();
      checkAll("values aren't copied from a mapped layout", fields, copy.pieces, c);
      // in part only
      vector<Field> few(fields.begin() + 1, fields.end());
      Layout part(few), partCopy(fields);
      Layout partMapped(fields);
      for (size_t i = 0; i < few.size(); ++i) {
        few[i].kind->put(*part.pieces[i], c[i + 1]);
      }
      part.collectVariableDataAndUpdateIndex();
      partMapped.mapLayout(part);
      fields[0].kind->put(*partCopy.pieces[0], 2 % int(fields[0].kind->contents.size()));
      if (partCopy.copyDataPieceValuesFromMappedLayout(partMapped) != few.size()) {
        mc::fail("values aren't copied from a layout mapped in part", str(fields));
      }
      partCopy.collectVariableDataAndUpdateIndex();
      auto c2 = c;
      c2[0] = 2 % int(fields[0].kind->contents.size());
      checkAll("copying from a layout mapped in part", fields, partCopy.pieces, c2);
      if (copy.copyDataPieceValuesFromMappedLayout(part) != 0 || mine.copyDataPieceValuesFromMappedLayout(mine) != 0) {
        mc::fail("values are copied from an unmapped layout, or to a mapped one", str(fields));
      }
      // (the first layout copied is not changed by what's refused)
      checkAll("a refused copy changes values", fields, copy.pieces, c);
    }
    // each field patched, the others kept
    for (size_t i = 0; i < fields.size(); ++i) {
      for (int v : {1, 0}) {
        layout.stageCurrentValues();
        auto c3 = c;
        c3[i] = v;
        if (!fields[i].kind->patch(*mine.pieces[i], v)) {
          mc::fail("a value can't be patched", str(fields));
        }
        layout.collectVariableDataAndUpdateIndex();
        checkAll("patching a field", fields, mine.pieces, c3);
        fields[i].kind->patch(*mine.pieces[i], c[i]);
        layout.collectVariableDataAndUpdateIndex();
        checkAll("patching a field back", fields, mine.pieces, c);
      }
    }
  };
  readAll(path, p, [&](size_t) { ++k; });
  mc::check(int(p.calls) == kRecords + 1, "layouts given");
  mc::traceValidated();
}

// ---------- structs of fields: their names come before those of their fields ----------
struct Pose : public DataLayoutStruct {
  DATA_LAYOUT_STRUCT(Pose)
  DataPieceValue<uint32_t> a{"a"};
  DataPieceString s{"s", "default"};
};
struct Body : public DataLayoutStruct {
  DATA_LAYOUT_STRUCT(Body)
  Pose left{"left"};
  DataLayoutStructArray<Pose, 2> hands{"hands"};
  DataPieceVector<string> v{"v"};
  Pose right{"right"};
};
struct Auto : public AutoDataLayout {
  explicit Auto(bool more = true) : optional(more) {}
  Body body{"body"};
  DataPieceValue<uint8_t> a{"a"};
  struct Optional {
    DataPieceValue<uint16_t> o{"o"};
    Pose p{"p"};
  };
  OptionalDataPieces<Optional> optional;
  DataPieceString s{"s"};
  AutoDataLayoutEnd end;
};
void structs() {
  ManualDataLayout l;
  vector<string> stack, want;
  const int steps = deep ? 8 : 6;
  for (int i = 0; i < steps; ++i) {
    const int op = mc::choose(stack.size() < 4 ? 5 : 2, "step");
    if (op == 0) {
      l.add(make_unique<DataPieceValue<uint32_t>>("f" + S(i)));
      string label;
      for (auto& n : stack) {
        label += n + "/";
      }
      want.push_back(label + "f" + S(i));
    } else if (op == 1) {
      if (!stack.empty()) {
        DataLayoutStruct::dataLayoutStructEnd(stack.back());
        stack.pop_back();
      }
    } else {
      stack.push_back(op == 2 ? "a" : op == 3 ? "bcd/" : "long name");
      DataLayoutStruct open(stack.back());
    }
  }
  l.endLayout();
  vector<string> got;
  l.forEachDataPiece([&](const DataPiece* p) { got.push_back(p->getLabel()); });
  if (got != want) {
    string d;
    for (auto& g : got) {
      d += " " + g;
    }
    mc::fail("fields aren't named after the structs they're in", d);
  }
  if (mc::choose(2, "auto") == 1 && stack.empty() && want.empty()) {
    // the real thing, written, and read with and without the optional fields
    const string path = mc::scratch() + "/s.vrs";
    Recordable::resetNewInstanceIds();
    const bool optional = mc::choose(2, "optional") == 1;
    {
      Auto w(optional);
      w.body.left.a.set(1);
      w.body.hands[0].a.set(2);
      w.body.hands[1].a.set(3);
      w.body.right.a.set(4);
      w.body.left.s.stage("l");
      w.body.hands[0].s.stage("h0");
      w.body.hands[1].s.stage("");
      w.body.v.stage({"v", ""});
      w.body.right.s.stage("r");
      w.a.set(5);
      w.s.stage("top");
      if (optional) {
        w.optional->o.set(6);
        w.optional->p.a.set(7);
        w.optional->p.s.stage("o");
      }
      RecordFileWriter writer;
      Source dev;
      writer.addRecordable(&dev);
      dev.format(1, w);
      dev.createWith(1, 1, w);
      mc::check(writer.writeToFile(path) == 0, "write");
    }
    Player p;
    p.on = [&](const CurrentRecord&, DataLayout& layout) {
      auto& x = p.expected<Auto>(layout);
      vector<string> v;
      x.body.v.get(v);
      if (x.body.left.a.get() != 1 || x.body.hands[0].a.get() != 2 || x.body.hands[1].a.get() != 3 || x.body.right.a.get() != 4 || x.body.left.s.get() != "l" || x.body.hands[0].s.get() != "h0" || !x.body.hands[1].s.get().empty() || v != vector<string>{"v", ""} || x.body.right.s.get() != "r" || x.a.get() != 5 || x.s.get() != "top") {
        mc::fail("the fields of structs aren't read back", layout.getListOfPiecesSpec());
      }
      if (x.optional->o.get() != (optional ? 6 : 0) || x.optional->p.a.get() != (optional ? 7u : 0u) || x.optional->p.s.get() != (optional ? "o" : "default") || x.optional->o.isAvailable() != optional) {
        mc::fail("the optional fields aren't as they were stored", layout.getListOfPiecesSpec());
      }
      if (layout.findDataPieceValue<uint32_t>("body/hands/1/a") == nullptr || layout.findDataPieceString("body/right/s") == nullptr || (layout.findDataPieceValue<uint16_t>("o") != nullptr) != optional) {
        mc::fail("the fields of structs aren't found by name", layout.getListOfPiecesSpec());
      }
    };
    readAll(path, p);
    mc::check(p.calls == 1, "a layout given");
  }
  mc::transition();
}

// ---------- printing ----------
void printing() {
  const auto& all = kinds();
  const uint32_t width = mc::pick(vector<uint32_t>{1, 10, 20, 40, 80, 160}, "width");
  const int what = mc::choose(4, "what");
  os::getTerminalWidth(width);
  for (size_t labelSize : {0, 1, 2, 5, 10, 15, 20, 30, 40, 60, 100, 150, 160, 200}) {
    const string label(labelSize, 'l');
    for (size_t size = 0; size <= 200; size += size < 50 ? 1 : 13) {
      for (char c : {'a', '\n', '\x01', '\xFF'}) {
        const string s = string(size, c);
        stringstream out;
        if (what == 0) {
          ManualDataLayout l;
          auto* p = static_cast<DataPieceString*>(l.add(make_unique<DataPieceString>(label, s)));
          l.endLayout();
          l.printLayoutCompact(out, "  ");
          p->stage(s);
          l.collectVariableDataAndUpdateIndex();
          l.printLayoutCompact(out, "  ");
          l.printLayout(out, "  ");
        } else if (what == 1) {
          ManualDataLayout l;
          auto* p = static_cast<DataPieceStringMap<string>*>(l.add(make_unique<DataPieceStringMap<string>>(label)));
          l.endLayout();
          p->stage({{label, s}, {s, label}});
          l.collectVariableDataAndUpdateIndex();
          l.printLayoutCompact(out, "  ");
          l.printLayout(out, "  ");
        } else if (what == 2) {
          ManualDataLayout l;
          auto* p = static_cast<DataPieceVector<string>*>(l.add(make_unique<DataPieceVector<string>>(label)));
          l.endLayout();
          p->stage({s, "", s});
          l.collectVariableDataAndUpdateIndex();
          l.printLayoutCompact(out, "  ");
          l.printLayout(out, "  ");
        } else {
          if (c != 'a') {
            continue;
          }
          ManualDataLayout l;
          auto* v = static_cast<DataPieceVector<uint8_t>*>(l.add(make_unique<DataPieceVector<uint8_t>>(label)));
          auto* a = static_cast<DataPieceArray<double>*>(l.add(make_unique<DataPieceArray<double>>(label, size % 23 + 1)));
          auto* x = static_cast<DataPieceValue<Matrix4Dd>*>(l.add(make_unique<DataPieceValue<Matrix4Dd>>(label)));
          auto* m = static_cast<DataPieceStringMap<int32_t>*>(l.add(make_unique<DataPieceStringMap<int32_t>>(label)));
          l.endLayout();
          v->stage(vector<uint8_t>(size * 3, 200));
          a->set(vector<double>(size, -1e-7));
          x->set(Values<Matrix4Dd>::all()[size % 8]);
          m->stage({{s, 1}, {label, -5}});
          l.collectVariableDataAndUpdateIndex();
          l.printLayoutCompact(out, string(size % 30, ' '));
          l.printLayout(out, string(size % 30, ' '));
        }
        if (out.str().find(label.substr(0, 5)) == string::npos) {
          mc::fail("a field isn't printed", out.str().substr(0, 300));
        }
        mc::transition();
      }
    }
  }
  (void)all;
  os::getTerminalWidth(160);
  mc::traceValidated();
}

} // namespace

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    deep = deep || string(argv[i]) == "--thorough";
  }
  kinds();
  mc::add({"round", roundAny});
  mc::add({"evolve", evolve});
  mc::add({"descriptions", descriptions});
  mc::add({"damaged-descriptions", damagedDescriptions});
  mc::add({"damaged-records", damagedRecords});
  mc::add({"edits", edits});
  mc::add({"structs", structs});
  mc::add({"printing", printing});
  return mc::main(argc, argv, "C17");
}
