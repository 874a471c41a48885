// C13: a chunked file behaves as one array of bytes. Every sequence of file operations to a depth, on every small
// chunking, on the real DiskFile, compared after each operation with a list of strings.
#include "vrsutil.h"

using namespace std;
using namespace vu;

namespace {

struct Model {
  vector<string> paths;
  vector<string> chunks;
  int64_t pos = 0;
  bool known = true; // is the position specified?
  bool extended = false; // bytes added since the file was opened (sizes are only updated when a chunk is completed)
  enum { kNone, kRead, kWrite } last = kNone;

  string all() const {
    string s;
    for (auto& c : chunks) {
      s += c;
    }
    return s;
  }
  int64_t total() const {
    return int64_t(all().size());
  }
  int64_t start(size_t k) const {
    int64_t o = 0;
    for (size_t i = 0; i < k; ++i) {
      o += int64_t(chunks[i].size());
    }
    return o;
  }
  string str() const {
    string s;
    for (auto& c : chunks) {
      s += "[" + c + "]";
    }
    return s + "@" + S(pos);
  }
  uint64_t hash(uint64_t seed) const {
    return mc::hashStr(str() + (known ? "" : "?") + char('0' + last), seed);
  }
};

string bytes(size_t n, char& next) {
  string s;
  while (s.size() < n) {
    s += next;
    next = next == 'z' ? 'a' : char(next + 1);
  }
  return s;
}

// What the file says about itself agrees with the model. Returns the index of the current chunk.
size_t observe(DiskFile& f, const Model& m, bool sizes) {
  string path;
  size_t k = 0;
  mc::check(f.isOpened(), "not-open");
  mc::check(f.getCurrentChunk(path, k), "no-current-chunk");
  mc::check(k < m.chunks.size() && path == m.paths[k], "current-chunk", path + " " + S(int64_t(k)));
  if (m.known) {
    mc::check(f.getPos() == m.pos, "position", "getPos() is " + S(f.getPos()) + " in " + m.str());
    const int64_t o = m.start(k), e = o + int64_t(m.chunks[k].size());
    mc::check(m.pos >= o && m.pos <= e, "current-chunk", "chunk " + S(int64_t(k)) + " in " + m.str());
    mc::check(f.getChunkPos() == m.pos - o, "chunk-position", S(f.getChunkPos()) + " in " + m.str());
  }
  if (sizes) {
    mc::check(f.getTotalSize() == m.total(), "total-size", S(f.getTotalSize()) + " in " + m.str());
    auto list = f.getFileChunks();
    mc::check(list.size() == m.chunks.size(), "chunk-count");
    for (size_t i = 0; i < list.size(); ++i) {
      mc::check(list[i].first == m.paths[i] && list[i].second == int64_t(m.chunks[i].size()), "chunk-list", m.str());
    }
    if (m.known) {
      int64_t o = -1, n = -1;
      mc::check(f.getChunkRange(o, n) == 0, "chunk-range-status");
      bool found = false;
      for (size_t i = 0; i < m.chunks.size(); ++i) {
        found |= m.start(i) == o && int64_t(m.chunks[i].size()) == n;
      }
      const bool inside = m.pos >= o && (m.pos < o + n || o + n == m.total() || n == 0);
      mc::check(found && inside && m.pos <= o + n, "chunk-range", S(o) + "+" + S(n) + " in " + m.str());
    }
  }
  return k;
}

void doRead(DiskFile& f, Model& m, int64_t n, bool readOnly) {
  string buf(size_t(n) + 2, '#');
  int status = f.read(&buf[0], size_t(n));
  const int64_t available = min(n, m.total() - m.pos);
  mc::check((status == 0) == (available == n), "read-status", "read(" + S(n) + ") gives " + S(status) + " in " + m.str());
  mc::check(f.getLastError() == status, "last-error");
  mc::check(int64_t(f.getLastRWSize()) == available, "read-size", "read(" + S(n) + ") gives " + S(int64_t(f.getLastRWSize())) + " in " + m.str());
  mc::check(buf.substr(0, size_t(available)) == m.all().substr(size_t(m.pos), size_t(available)), "read-data", "read " + buf + " in " + m.str());
  mc::check(buf[size_t(n)] == '#' && buf[size_t(n) + 1] == '#', "read-overflow");
  m.pos += available;
  m.last = Model::kRead;
  if (available < n) {
    mc::check(f.isEof(), "eof-after-short-read", m.str());
  } else if (readOnly && m.pos < m.total()) {
    mc::check(!f.isEof(), "early-eof", m.str());
  }
}

void verifyOnDisk(const Model& m) {
  for (size_t i = 0; i < m.paths.size(); ++i) {
    vector<uint8_t> b;
    mc::check(slurp(m.paths[i], b), "chunk-missing", m.paths[i]);
    mc::check(string(b.begin(), b.end()) == m.chunks[i], "content", "chunk " + S(int64_t(i)) + " is [" + string(b.begin(), b.end()) + "] instead of " + m.str());
  }
}

void verifyReopened(const Model& m) {
  FileSpec spec;
  spec.chunks = m.paths;
  DiskFile f;
  mc::check(f.openSpec(spec) == 0, "reopen");
  Model r = m;
  r.pos = 0;
  r.known = true;
  observe(f, r, true);
  if (r.total() > 0) {
    doRead(f, r, r.total(), true);
  }
  mc::check(f.close() == 0, "reopen-close");
}

Model makeFiles(const vector<int>& sizes) {
  Model m;
  char next = 'A';
  for (size_t i = 0; i < sizes.size(); ++i) {
    m.paths.push_back(mc::scratch() + "/c" + S(int64_t(i)));
    string s;
    for (int k = 0; k < sizes[i]; ++k) {
      s += next++;
    }
    m.chunks.push_back(s);
    spit(m.paths.back(), s.data(), s.size());
  }
  return m;
}

void doSetPos(DiskFile& f, Model& m, int64_t p, bool readOnly) {
  int status = f.setPos(p);
  mc::check(f.getLastError() == status, "last-error");
  if (p >= 0 && p <= m.total()) {
    mc::check(status == 0, "seek-status", "setPos(" + S(p) + ") gives " + S(status) + " in " + m.str());
    m.pos = p;
    m.known = true;
    m.last = Model::kNone;
    mc::check(!f.isEof(), "eof-after-seek");
  } else if (readOnly || p < 0) {
    mc::check(status != 0, "seek-past-end", "setPos(" + S(p) + ") succeeds in " + m.str());
    m.known = false;
  }
}

// read-only file
void readOnly(const vector<int>& sizes, int depth, bool few) {
  cleanScratch();
  Model m = makeFiles(sizes);
  FileSpec spec;
  spec.chunks = m.paths;
  DiskFile f;
  mc::check(f.openSpec(spec) == 0, "open");
  mc::check(f.isReadOnly(), "not-read-only");
  const int total = int(m.total());
  vector<int> reads{1, 2, 3, total, total + 1};
  if (few) {
    reads = {1, 3};
  }
  for (int i = 0; i < depth; ++i) {
    observe(f, m, true);
    mc::state(m.hash(i + 1000 * depth));
    vector<pair<char, int>> ops;
    for (int p = few ? 0 : -1; p <= total + (few ? 0 : 1); ++p) {
      ops.push_back({'p', p});
    }
    if (m.known) {
      for (int n : reads) {
        ops.push_back({'r', n});
      }
      for (int n : few ? vector<int>{1} : vector<int>{0, 1, 2, total}) {
        ops.push_back({'s', n});
      }
    }
    if (!few) {
      ops.push_back({'w', 1});
    }
    auto op = mc::pick(ops, "op");
    mc::transition();
    if (mc::noting()) {
      mc::note(string(1, op.first) + S(op.second) + " ");
    }
    switch (op.first) {
      case 'p':
        doSetPos(f, m, op.second, true);
        break;
      case 'r':
        doRead(f, m, op.second, true);
        break;
      case 's': {
        int status = f.skipForward(op.second);
        if (m.pos + op.second <= m.total()) {
          mc::check(status == 0, "skip-status", "skipForward(" + S(op.second) + ") gives " + S(status) + " in " + m.str());
          m.pos += op.second;
        } else {
          mc::check(status != 0, "skip-past-end", "skipForward(" + S(op.second) + ") succeeds in " + m.str());
          m.known = false;
        }
        break;
      }
      case 'w': {
        int w = f.write("x", 1), o = f.overwrite("x", 1), t = f.truncate();
        mc::check(w != 0 && o != 0 && t != 0, "read-only-write", m.str());
        break;
      }
    }
  }
  observe(f, m, true);
  mc::state(m.hash(depth));
  mc::check(f.close() == 0, "close");
  mc::check(!f.isOpened() && f.getTotalSize() == 0, "closed");
  verifyOnDisk(m);
  mc::traceValidated();
}

void doOverwrite(DiskFile& f, Model& m, int n, char& next) {
  string s = bytes(size_t(n), next);
  int status = f.overwrite(s.data(), s.size());
  mc::check(status == 0 && f.getLastError() == 0, "overwrite-status", S(status) + " in " + m.str());
  mc::check(f.getLastRWSize() == s.size(), "overwrite-size", S(int64_t(f.getLastRWSize())));
  for (char c : s) {
    bool done = false;
    int64_t o = 0;
    for (size_t k = 0; k < m.chunks.size() && !done; ++k) {
      if (m.pos < o + int64_t(m.chunks[k].size())) {
        m.chunks[k][size_t(m.pos - o)] = c;
        done = true;
      }
      o += int64_t(m.chunks[k].size());
    }
    if (!done) {
      m.chunks.back() += c;
      m.extended = true;
    }
    m.pos++;
  }
  m.last = Model::kWrite;
}

void doTruncate(DiskFile& f, Model& m, size_t k) {
  int status = f.truncate();
  mc::check(status == 0 && f.getLastError() == 0, "truncate-status", S(status) + " in " + m.str());
  m.chunks[k].resize(size_t(m.pos - m.start(k)));
  if (k + 1 == m.chunks.size()) {
    m.extended = false;
  }
  m.known = false; // mixing with reads and writes requires a seek
}

// a file opened for updates
void update(const vector<int>& sizes, int depth) {
  cleanScratch();
  Model m = makeFiles(sizes);
  FileSpec spec;
  spec.chunks = m.paths;
  DiskFile f;
  mc::check(f.openSpec(spec) == 0, "open");
  int first = mc::choose(int(m.total()) + 1, "first");
  doSetPos(f, m, first, true);
  mc::check(f.reopenForUpdates() == 0, "reopen-for-updates");
  mc::check(!f.isReadOnly(), "still-read-only");
  m.known = false;
  char next = 'a';
  for (int i = 0; i < depth; ++i) {
    size_t k = observe(f, m, !m.extended);
    mc::state(m.hash(50 + i));
    const int total = int(m.total());
    vector<pair<char, int>> ops;
    for (int p = 0; p <= total; ++p) {
      ops.push_back({'p', p});
    }
    if (m.known) {
      if (m.last != Model::kWrite) {
        ops.push_back({'r', 1});
        ops.push_back({'r', 3});
        ops.push_back({'r', total + 1});
      }
      if (m.last != Model::kRead) {
        ops.push_back({'o', 1});
        ops.push_back({'o', 2});
        ops.push_back({'o', 4});
        ops.push_back({'t', 0});
        if (k + 1 == m.chunks.size() || m.pos + 1 <= m.start(k) + int64_t(m.chunks[k].size())) {
          ops.push_back({'w', 1});
        }
      }
      ops.push_back({'s', 1});
    }
    auto op = mc::pick(ops, "op");
    mc::transition();
    if (mc::noting()) {
      mc::note(string(1, op.first) + S(op.second) + " ");
    }
    switch (op.first) {
      case 'p':
        doSetPos(f, m, op.second, false);
        break;
      case 'r':
        doRead(f, m, op.second, false);
        break;
      case 'o':
        doOverwrite(f, m, op.second, next);
        break;
      case 't':
        doTruncate(f, m, k);
        break;
      case 's':
        if (m.pos + op.second <= m.total()) {
          mc::check(f.skipForward(op.second) == 0, "skip-status", m.str());
          m.pos += op.second;
          m.last = Model::kNone;
        }
        break;
      case 'w': {
        string s = bytes(1, next);
        mc::check(f.write(s.data(), 1) == 0 && f.getLastRWSize() == 1, "write-status", m.str());
        const int64_t o = m.pos - m.start(k);
        if (o < int64_t(m.chunks[k].size())) {
          m.chunks[k][size_t(o)] = s[0];
        } else {
          m.chunks[k] += s;
          m.extended = true;
        }
        m.pos++;
        m.last = Model::kWrite;
        break;
      }
    }
  }
  observe(f, m, !m.extended);
  mc::check(f.close() == 0, "close");
  verifyOnDisk(m);
  verifyReopened(m);
  mc::traceValidated();
}

// a new file
void create(int depth) {
  cleanScratch();
  Model m;
  static const char* buffers[] = {"", "0", "1", "3", "4096"};
  const string buffer = buffers[mc::choose(5, "buffer")];
  const bool numbered = mc::choose(2, "numbered") == 1;
  const string base = mc::scratch() + (numbered ? "/n_1" : "/n");
  FileSpec::Extras extras;
  if (!buffer.empty()) {
    extras["io_buffer_size"] = buffer;
  }
  DiskFile f;
  mc::check(f.create(base, extras) == 0, "create");
  m.paths.push_back(base);
  m.chunks.emplace_back();
  char next = 'a';
  for (int i = 0; i < depth; ++i) {
    size_t k = observe(f, m, false);
    mc::state(m.hash(100 + i));
    const int64_t total = m.total();
    vector<pair<char, int>> ops;
    if (m.known) {
      const bool inLast = k + 1 == m.chunks.size();
      for (int n : {1, 3, 5}) {
        if (inLast || m.pos + n <= m.start(k) + int64_t(m.chunks[k].size())) {
          ops.push_back({'w', n});
        }
      }
      ops.push_back({'o', 1});
      ops.push_back({'o', 3});
      if (inLast && m.pos == total) {
        ops.push_back({'c', 0});
      }
      ops.push_back({'t', 0});
    }
    for (int64_t p = 0; p <= total; ++p) {
      if (p <= 2 || p >= total - 2 || p % 2 == 0) {
        ops.push_back({'p', int(p)});
      }
    }
    auto op = mc::pick(ops, "op");
    mc::transition();
    if (mc::noting()) {
      mc::note(string(1, op.first) + S(op.second) + " ");
    }
    switch (op.first) {
      case 'w': {
        string s = bytes(size_t(op.second), next);
        mc::check(f.write(s.data(), s.size()) == 0, "write-status", m.str());
        mc::check(f.getLastRWSize() == s.size(), "write-size", m.str());
        const size_t o = size_t(m.pos - m.start(k));
        m.chunks[k].replace(o, s.size(), s);
        m.pos += op.second;
        break;
      }
      case 'o':
        doOverwrite(f, m, op.second, next);
        break;
      case 'c': {
        mc::check(f.addChunk() == 0, "add-chunk-status", m.str());
        const string expected = numbered ? mc::scratch() + "/n_" + S(int64_t(m.chunks.size() + 1)) : base + "_" + S(int64_t(m.chunks.size()));
        m.paths.push_back(expected);
        m.chunks.emplace_back();
        string path;
        size_t index = 0;
        mc::check(f.getCurrentChunk(path, index) && path == expected && index + 1 == m.chunks.size(), "new-chunk", path);
        auto list = f.getFileChunks();
        mc::check(list.size() == m.chunks.size(), "chunk-count");
        for (size_t c = 0; c + 1 < list.size(); ++c) {
          mc::check(list[c].first == m.paths[c] && list[c].second == int64_t(m.chunks[c].size()), "chunk-list", m.str());
        }
        break;
      }
      case 't':
        doTruncate(f, m, k);
        break;
      case 'p':
        doSetPos(f, m, op.second, false);
        break;
    }
  }
  observe(f, m, false);
  mc::check(f.close() == 0, "close");
  verifyOnDisk(m);
  verifyReopened(m);
  mc::traceValidated();
}

// files written and read whole
void whole() {
  cleanScratch();
  static const size_t sizes[] = {0, 1, 2, 3, 100, 131071, 131072, 131073, 400000, 1000001};
  const size_t n = sizes[mc::choose(10, "size")];
  auto data = payload(n, 7, Fill(mc::choose(3, "fill")));
  const string text(data.begin(), data.end());
  const string path = mc::scratch() + "/w";
  mc::transition(4);
  if (mc::choose(2, "over") == 1) {
    mc::check(DiskFile::writeTextFile(path, string(500000, 'o')) == 0, "write-text");
  }
  mc::check(DiskFile::writeTextFile(path, text) == 0, "write-text");
  mc::check(DiskFile::readTextFile(path) == text, "read-text");
  mc::check(DiskFile::writeZstdFile(path, text) == 0, "write-zstd");
  string back = "junk";
  mc::check(DiskFile::readZstdFile(path, back) == 0 && back == text, "read-zstd-string");
  vector<char> v(3);
  mc::check(DiskFile::readZstdFile(path, v) == 0 && string(v.begin(), v.end()) == text, "read-zstd-vector");
  if (n > 0) {
    string exact(n, 0);
    mc::check(DiskFile::readZstdFile(path, &exact[0], n) == 0 && exact == text, "read-zstd-exact");
    mc::check(DiskFile::readZstdFile(path, &exact[0], n - 1) != 0, "read-zstd-wrong-size");
  }
  mc::check(listDir(mc::scratch()).size() == 1, "files-left-behind");
  mc::state(mc::hashStr(text));
  mc::traceValidated();
}

// chunks that are not there, at each rank; then the same object opens a proper file
void cannotOpen() {
  cleanScratch();
  Model m = makeFiles({2, 2, 2});
  DiskFile f;
  FileSpec spec;
  spec.chunks = m.paths;
  const int before = mc::choose(2, "before");
  if (before) {
    mc::check(f.openSpec(spec) == 0, "open");
  }
  const int missing = mc::choose(4, "missing");
  if (missing < 3) {
    spec.chunks[size_t(missing)] += ".none";
  } else {
    spec.chunks.clear();
  }
  mc::transition(3);
  mc::check(f.openSpec(spec) != 0, "open-missing", missing < 3 ? spec.chunks[size_t(missing)] : string("no chunk"));
  mc::check(!f.isOpened() && f.getTotalSize() == 0, "open-after-failure");
  spec.chunks = m.paths;
  mc::check(f.openSpec(spec) == 0, "open-again");
  observe(f, m, true);
  doRead(f, m, 6, true);
  mc::state(uint64_t(missing * 2 + before));
  mc::traceValidated();
}

void chunkings(int total, int maxChunks, vector<int>& cur, vector<vector<int>>& out) {
  int sum = 0;
  for (int c : cur) {
    sum += c;
  }
  if (sum == total && !cur.empty()) {
    out.push_back(cur);
  }
  if (int(cur.size()) == maxChunks) {
    return;
  }
  for (int n = 0; n <= total - sum; ++n) {
    if (n == 0 && !cur.empty() && cur.back() == 0) {
      continue; // one empty chunk in a row
    }
    cur.push_back(n);
    chunkings(total, maxChunks, cur, out);
    cur.pop_back();
  }
}

string nameOf(const vector<int>& v) {
  string s;
  for (int n : v) {
    s += (s.empty() ? "" : "+") + S(n);
  }
  return s;
}

} // namespace

int main(int argc, char** argv) {
  bool deep = false;
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
  }
  vector<vector<int>> layouts;
  for (int total : {0, 1, 5}) {
    vector<int> cur;
    chunkings(total, total == 5 ? 4 : 2, cur, layouts);
  }
  const int rd = deep ? 4 : 3;
  for (auto& l : layouts) {
    mc::add({"read-" + nameOf(l), [l, rd]() { readOnly(l, rd, false); }});
  }
  for (auto& l : vector<vector<int>>{{1, 1, 1, 1, 1}, {2, 1, 1, 1, 1}, {1, 2, 0, 1, 1}}) {
    mc::add({"hop-" + nameOf(l), [l, deep]() { readOnly(l, deep ? 6 : 5, true); }});
  }
  for (auto& l : vector<vector<int>>{{4}, {2, 2}, {1, 1, 2}, {1, 0, 2}, {2, 2, 0}, {1, 1, 1, 1}}) {
    mc::add({"update-" + nameOf(l), [l, deep]() { update(l, deep ? 5 : 4); }});
  }
  mc::add({"create", [deep]() { create(deep ? 6 : 5); }});
  mc::add({"whole", whole});
  mc::add({"cannot-open", cannotOpen});
  return mc::main(argc, argv, "C13");
}
