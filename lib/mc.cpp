#include "mc.h"

#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <atomic>
#include <deque>
#include <map>
#include <set>

using std::string;
using std::vector;

namespace mc {

namespace {

constexpr size_t kStateSlots = 1u << 24;
constexpr size_t kMaxTrace = 1u << 15;
constexpr int kMaxWorkers = 32;
constexpr int kMaxCounters = 48;

struct WorkerShm {
  std::atomic<uint64_t> startedMs; // 0: idle
  std::atomic<uint64_t> execs;
  uint32_t scenario;
  uint32_t len; // choices answered so far in the current execution
  uint16_t choices[kMaxTrace];
};

struct Shm {
  std::atomic<uint64_t> states[kStateSlots];
  std::atomic<uint64_t> stateCount;
  std::atomic<uint64_t> stateOverflow;
  std::atomic<uint64_t> transitions;
  std::atomic<uint64_t> traces;
  std::atomic<uint64_t> choicePoints;
  std::atomic<uint64_t> divergences;
  std::atomic<uint64_t> truncated;
  WorkerShm w[kMaxWorkers];
  std::atomic<int> nCounters;
  std::atomic<uint64_t> counters[kMaxCounters];
  char counterNames[kMaxCounters][48];
};

Shm* shm = nullptr;
vector<Scenario> scenarios;

struct Options {
  bool thorough = false;
  int jobs = 8;
  string out;
  string replayDir;
  string replay;
  double timeCap = 0;
  double execCap = 20;
  string only;
  vector<string> known; // known-finding keys
  int seed = 1;
} opt;

uint64_t nowMs() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC_RAW, &ts);
  return uint64_t(ts.tv_sec) * 1000 + ts.tv_nsec / 1000000;
}

struct Point {
  uint16_t n;
  uint16_t chosen;
  int32_t costs; // where its costs are in costPool; -1: uniform cost
  uint8_t cost;
};

// The trace is kept in fixed arrays: it is written by all threads of the code under test, with no
// synchronisation the sanitizers could see, so it must not be allocated, freed or copied by them.
Point traceBuf[kMaxTrace];
size_t traceLen = 0;
uint8_t costPool[kMaxTrace * 8];
size_t costLen = 0;

// ---- state of the current execution (worker side) ----
struct Exec {
  bool active = false;
  const vector<uint16_t>* prefix = nullptr;
  bool diverged = false;
  bool noting = false;
  int scenario = 0;
  uint64_t index = 0;
  string lastLabel;
} ex;

// The trace text of the execution: a plain buffer filled byte by byte, so that no allocation or
// library call made here can be taken by the sanitizers for an access of the code under test.
char notesBuf[24001];
size_t notesLen = 0;
void addNote(const char* s, size_t n) {
  for (size_t i = 0; i < n && notesLen < sizeof(notesBuf) - 1; ++i) {
    static_cast<volatile char*>(notesBuf)[notesLen++] = s[i];
  }
}
void addNote(const char* s) {
  size_t n = 0;
  while (static_cast<const volatile char*>(s)[n] != 0) {
    ++n;
  }
  addNote(s, n);
}
void addNote(unsigned v) {
  char b[12];
  int i = 12;
  do {
    b[--i] = char('0' + v % 10);
    v /= 10;
  } while (v != 0);
  addNote(b + i, 12 - i);
}

int myWorker = -1;
int reportFd = -1;
string scratchDir;

} // namespace

uint64_t currentExecution() {
  return ex.index;
}
const char* currentLabel() {
  return ex.lastLabel.c_str();
}

uint64_t hashBytes(const void* p, size_t n, uint64_t seed) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  uint64_t h = seed ^ (n * 0xff51afd7ed558ccdull);
  while (n >= 8) {
    uint64_t v;
    memcpy(&v, b, 8);
    h = (h ^ v) * 0xc4ceb9fe1a85ec53ull;
    h ^= h >> 29;
    b += 8;
    n -= 8;
  }
  uint64_t v = 0;
  memcpy(&v, b, n);
  h = (h ^ v) * 0xc4ceb9fe1a85ec53ull;
  h ^= h >> 32;
  h *= 0x9E3779B97F4A7C15ull;
  h ^= h >> 29;
  return h;
}

static int answer(int n, const uint8_t* costs, uint8_t cost, const char* label) {
  if (n <= 1 || !ex.active) {
    return 0;
  }
  size_t i = traceLen;
  int a = 0;
  if (i < ex.prefix->size()) {
    a = (*ex.prefix)[i];
    if (a >= n) {
      ex.diverged = true;
      a = 0;
    }
  }
  if (i >= kMaxTrace - 1 || costLen + 256 > sizeof(costPool)) {
    shm->truncated++;
    return 0;
  }
  Point p;
  p.n = uint16_t(n);
  p.chosen = uint16_t(a);
  p.cost = cost;
  p.costs = -1;
  if (costs) {
    p.costs = int32_t(costLen);
    for (int k = 0; k < n; ++k) {
      static_cast<volatile uint8_t*>(costPool)[costLen++] = costs[k];
    }
  }
  traceBuf[traceLen++] = p;
  if (myWorker >= 0) {
    WorkerShm& w = shm->w[myWorker];
    w.choices[i] = uint16_t(a);
    w.len = uint32_t(i + 1);
  }
  if (ex.noting) {
    addNote(" ");
    addNote(label);
    addNote("=");
    addNote(unsigned(a));
    addNote("/");
    addNote(unsigned(n));
  }
  return a;
}

int choose(int n, const char* label, int cost) {
  return answer(n, nullptr, uint8_t(cost), label);
}
int chooseCosts(int n, const uint8_t* costs, const char* label) {
  return answer(n, costs, 0, label);
}

void state(uint64_t h) {
  h = hashInt(ex.scenario + 1, h); // states of different scenarios are different states
  if (h == 0) {
    h = 1;
  }
  size_t i = h & (kStateSlots - 1);
  for (int probe = 0; probe < 64; ++probe, i = (i + 1) & (kStateSlots - 1)) {
    uint64_t cur = shm->states[i].load(std::memory_order_relaxed);
    if (cur == h) {
      return;
    }
    if (cur == 0) {
      uint64_t expected = 0;
      if (shm->states[i].compare_exchange_strong(expected, h)) {
        shm->stateCount++;
        return;
      }
      if (expected == h) {
        return;
      }
    }
  }
  shm->stateOverflow++;
}

void transition(uint64_t n) {
  shm->transitions += n;
}
void traceValidated(uint64_t n) {
  shm->traces += n;
}
static bool sameName(const volatile char* a, const volatile char* b) {
  for (int i = 0; i < 46; ++i) {
    if (a[i] != b[i]) {
      return false;
    }
    if (a[i] == 0) {
      return true;
    }
  }
  return true;
}
void count(const char* name, uint64_t n) {
  int k = shm->nCounters.load();
  for (int i = 0; i < k; ++i) {
    if (sameName(shm->counterNames[i], name)) {
      shm->counters[i] += n;
      return;
    }
  }
  static std::atomic_flag* lock = reinterpret_cast<std::atomic_flag*>(&shm->counterNames[kMaxCounters - 1][40]);
  while (lock->test_and_set()) {
  }
  k = shm->nCounters.load();
  int i = 0;
  for (; i < k; ++i) {
    if (sameName(shm->counterNames[i], name)) {
      break;
    }
  }
  if (i == k && k < kMaxCounters - 1) {
    for (int c = 0; c < 46 && static_cast<const volatile char*>(name)[c] != 0; ++c) {
      static_cast<volatile char*>(shm->counterNames[k])[c] = name[c];
    }
    shm->nCounters = k + 1;
  }
  lock->clear();
  shm->counters[i] += n;
}

bool noting() {
  return ex.noting;
}
void note(const string& s) {
  if (ex.noting) {
    addNote(" ");
    addNote(s.data(), s.size());
  }
}
bool thorough() {
  return opt.thorough;
}
const string& scratch() {
  if (scratchDir.empty()) {
    const char* base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    scratchDir = string(base) + "/vrsmc." + std::to_string(getppid()) + "." + std::to_string(getpid());
    mkdir(scratchDir.c_str(), 0700);
  }
  return scratchDir;
}

// ---- wire format between workers and master: u32 length, then payload ----
namespace {

struct Buf {
  string s;
  void u32(uint32_t v) {
    s.append(reinterpret_cast<char*>(&v), 4);
  }
  void str(const string& v) {
    u32(uint32_t(v.size()));
    s += v;
  }
  void vec(const vector<uint16_t>& v) {
    u32(uint32_t(v.size()));
    s.append(reinterpret_cast<const char*>(v.data()), v.size() * 2);
  }
};
struct Rd {
  const char* p;
  const char* e;
  uint32_t u32() {
    uint32_t v;
    memcpy(&v, p, 4);
    p += 4;
    return v;
  }
  string str() {
    uint32_t n = u32();
    string s(p, n);
    p += n;
    return s;
  }
  vector<uint16_t> vec() {
    uint32_t n = u32();
    vector<uint16_t> v(n);
    memcpy(v.data(), p, n * 2);
    p += n * 2;
    return v;
  }
};

bool writeAll(int fd, const void* d, size_t n) {
  const char* p = static_cast<const char*>(d);
  while (n > 0) {
    ssize_t k = ::write(fd, p, n);
    if (k < 0) {
      if (errno == EINTR) {
        continue;
      }
      return false;
    }
    p += k;
    n -= k;
  }
  return true;
}
bool readAll(int fd, void* d, size_t n) {
  char* p = static_cast<char*>(d);
  while (n > 0) {
    ssize_t k = ::read(fd, p, n);
    if (k < 0 && errno == EINTR) {
      continue;
    }
    if (k <= 0) {
      return false;
    }
    p += k;
    n -= k;
  }
  return true;
}
bool sendMsg(int fd, const Buf& b) {
  uint32_t n = uint32_t(b.s.size());
  return writeAll(fd, &n, 4) && writeAll(fd, b.s.data(), n);
}
bool recvMsg(int fd, string& out) {
  uint32_t n;
  if (!readAll(fd, &n, 4)) {
    return false;
  }
  out.resize(n);
  return readAll(fd, out.data(), n);
}

struct Item {
  uint32_t scenario;
  uint32_t cost;
  vector<uint16_t> prefix;
};

enum Msg : uint32_t { kDone = 1, kViolation = 2 };

vector<uint16_t> chosenTrace() {
  vector<uint16_t> v;
  v.reserve(traceLen);
  for (size_t i = 0; i < traceLen; ++i) {
    v.push_back(traceBuf[i].chosen);
  }
  return v;
}

void sendViolation(const Violation& v) {
  Buf b;
  b.u32(kViolation);
  b.u32(ex.scenario);
  b.vec(chosenTrace());
  b.str(v.key);
  b.str(v.detail);
  b.str(string(notesBuf, notesLen));
  if (reportFd >= 0) {
    sendMsg(reportFd, b);
  }
}

// Run one execution; returns true if it ended without a violation.
bool runOne(int sc, const vector<uint16_t>& prefix, bool noting, Violation* out) {
  ex.active = true;
  ex.prefix = &prefix;
  traceLen = 0;
  costLen = 0;
  ex.diverged = false;
  ex.noting = noting;
  notesLen = 0;
  ex.scenario = sc;
  ex.index++;
  if (myWorker >= 0) {
    WorkerShm& w = shm->w[myWorker];
    w.scenario = uint32_t(sc);
    w.len = 0;
    w.startedMs = nowMs();
  }
  bool ok = true;
  try {
    scenarios[sc].body();
  } catch (ViolationException& e) {
    *out = e.v;
    ok = false;
  } catch (std::exception& e) {
    *out = {"uncaught-exception", e.what()};
    ok = false;
  }
  ex.active = false;
  if (myWorker >= 0) {
    shm->w[myWorker].startedMs = 0;
    shm->w[myWorker].execs++;
  }
  shm->choicePoints += traceLen;
  if (ex.diverged || (ok && traceLen < prefix.size())) {
    shm->divergences++;
  }
  return ok;
}

string logPathFor(int worker) {
  return opt.replayDir + "/worker" + std::to_string(worker) + ".log";
}

void childSetup(int worker, bool quiet) {
  myWorker = worker;
  scratchDir.clear();
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (quiet) {
    int fd = open(logPathFor(worker).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (fd >= 0) {
      dup2(fd, 2);
      close(fd);
    }
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
  }
}

[[noreturn]] void workerMain(int worker, int inFd, int outFd) {
  childSetup(worker, true);
  reportFd = outFd;
  struct rlimit rl = {64 << 20, 64 << 20}; // no runaway files
  setrlimit(RLIMIT_FSIZE, &rl);
  std::set<int> warmed;
  string msg;
  while (recvMsg(inFd, msg)) {
    Rd r{msg.data(), msg.data() + msg.size()};
    uint32_t sc = r.u32();
    uint32_t cost = r.u32();
    uint32_t budgetMs = r.u32();
    vector<uint16_t> prefix = r.vec();
    if (warmed.insert(sc).second) {
      if (scenarios[sc].warmup) {
        scenarios[sc].warmup();
      }
    }
    const uint32_t bound = uint32_t(scenarios[sc].bound);
    // local depth-first exploration of this item's subtree, for a limited time
    vector<Item> stack;
    stack.push_back({sc, cost, std::move(prefix)});
    uint64_t start = nowMs();
    uint64_t execs = 0;
    while (!stack.empty() && (execs == 0 || nowMs() - start < budgetMs)) {
      Item it = std::move(stack.back());
      stack.pop_back();
      ++execs;
      bool sampling = worker == 0 && shm->w[worker].execs < 3;
      Violation v;
      if (!runOne(sc, it.prefix, sampling, &v)) {
        sendViolation(v);
      }
      if (sampling && notesLen != 0) {
        Buf b;
        b.u32(3);
        b.u32(sc);
        b.str(string(notesBuf, std::min<size_t>(notesLen, 1500)));
        sendMsg(outFd, b);
      }
      // children: every alternative at every point past the prefix
      vector<uint16_t> base = chosenTrace();
      for (size_t i = it.prefix.size(); i < traceLen; ++i) {
        const Point& p = traceBuf[i];
        for (uint16_t a = 1; a < p.n; ++a) {
          uint32_t c = it.cost + (p.costs < 0 ? p.cost : costPool[p.costs + a]);
          if (c > bound) {
            continue;
          }
          Item child;
          child.scenario = sc;
          child.cost = c;
          child.prefix.assign(base.begin(), base.begin() + i);
          child.prefix.push_back(a);
          stack.push_back(std::move(child));
        }
      }
      if (stack.size() > 60000) {
        break;
      }
    }
    Buf b;
    b.u32(kDone);
    b.u32(uint32_t(execs));
    b.u32(uint32_t(stack.size()));
    for (Item& it : stack) {
      b.u32(it.scenario);
      b.u32(it.cost);
      b.vec(it.prefix);
    }
    if (!sendMsg(outFd, b)) {
      break;
    }
  }
  fflush(nullptr);
  _exit(0);
}

struct Worker {
  pid_t pid = -1;
  int in = -1, out = -1;
  bool busy = false;
  Item item;
};

string jsonStr(const string& s) {
  string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c > 0x7e) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      o += b;
    } else {
      o += char(c);
    }
  }
  return o + "\"";
}

struct Found {
  string scenario;
  vector<uint16_t> trace;
  Violation v;
  string notes;
};

string readFile(const string& path, size_t max) {
  string s;
  FILE* f = fopen(path.c_str(), "rb");
  if (f) {
    s.resize(max);
    s.resize(fread(s.data(), 1, max, f));
    fclose(f);
  }
  return s;
}

void removeScratch(pid_t pid) {
  for (const char* base : {"/dev/shm", "/tmp"}) {
    string d = string(base) + "/vrsmc." + std::to_string(getpid()) + "." + std::to_string(pid);
    struct stat st;
    if (stat(d.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
      string cmd = "rm -rf '" + d + "'";
      if (system(cmd.c_str()) != 0) {
      }
    }
  }
}

string firstLines(const string& s, size_t maxBytes) {
  string o = s.substr(0, maxBytes);
  return o;
}

// Summarise a sanitizer report as a stable key.
string crashKey(int status, const string& log) {
  size_t p = log.find("SUMMARY: ");
  if (p != string::npos) {
    string line = log.substr(p + 9, log.find('\n', p) - p - 9);
    // "AddressSanitizer: heap-use-after-free /repo/vrs/x.cpp:12:3 in vrs::f(...)"
    string kind = line.substr(0, line.find(" /"));
    size_t in = line.rfind(" in ");
    string fn = in == string::npos ? "" : line.substr(in + 4);
    fn = fn.substr(0, fn.find('('));
    string key = "crash:" + kind + (fn.empty() ? "" : ":" + fn);
    for (char& c : key) {
      if (c == ' ') {
        c = '-';
      }
    }
    return key;
  }
  p = log.find("runtime error: ");
  if (p != string::npos) {
    return "crash:ub";
  }
  if (WIFSIGNALED(status)) {
    return "crash:signal-" + std::to_string(WTERMSIG(status));
  }
  return "crash:exit-" + std::to_string(WEXITSTATUS(status));
}

// Re-run a trace alone in a fresh process. Returns true if it fails (again).
bool confirm(int sc, const vector<uint16_t>& trace, double capSec, Found& out, bool verbose) {
  int pfd[2];
  if (pipe(pfd) != 0) {
    return false;
  }
  const int slot = kMaxWorkers - 1;
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]);
    childSetup(slot, !verbose);
    reportFd = pfd[1];
    if (scenarios[sc].warmup) {
      scenarios[sc].warmup();
    }
    Violation v;
    if (!runOne(sc, trace, true, &v)) {
      sendViolation(v);
    } else if (verbose) {
      printf("trace:%.*s\n", int(notesLen), notesBuf);
    }
    fflush(nullptr);
    _exit(0);
  }
  close(pfd[1]);
  uint64_t start = nowMs();
  string msg;
  bool got = false, timedOut = false;
  for (;;) {
    struct pollfd pf = {pfd[0], POLLIN, 0};
    int64_t left = int64_t(capSec * 1000) - int64_t(nowMs() - start);
    if (left <= 0) {
      timedOut = true;
      kill(pid, SIGKILL);
      break;
    }
    int k = poll(&pf, 1, int(std::min<int64_t>(left, 500)));
    if (k > 0) {
      got = recvMsg(pfd[0], msg);
      break;
    }
  }
  close(pfd[0]);
  int status = 0;
  // the process may linger in sanitizer reporting: wait for it within the cap
  for (;;) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) {
      break;
    }
    if (nowMs() - start > uint64_t(capSec * 1000)) {
      timedOut = !got;
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      break;
    }
    usleep(2000);
  }
  removeScratch(pid);
  out.scenario = scenarios[sc].name;
  out.trace = trace;
  if (got) {
    Rd r{msg.data(), msg.data() + msg.size()};
    r.u32();
    r.u32();
    out.trace = r.vec();
    out.v.key = r.str();
    out.v.detail = r.str();
    out.notes = r.str();
    return true;
  }
  if (timedOut) {
    out.v = {"hang", "the execution did not end within " + std::to_string(int(capSec)) + " s, alone"};
    return true;
  }
  if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
    string log = verbose ? string() : readFile(logPathFor(slot), 1 << 20);
    out.v = {crashKey(status, log), firstLines(log, 6000)};
    return true;
  }
  return false;
}

} // namespace

void reportAndExit(const Violation& v) {
  if (myWorker < 0) {
    fprintf(stderr, "violation: %s: %s\n", v.key.c_str(), v.detail.c_str());
    _exit(1);
  }
  sendViolation(v);
  _exit(0);
}

namespace {
bool (*inSchedule)() = nullptr;
}
void setInSchedule(bool (*f)());
void setInSchedule(bool (*f)()) {
  inSchedule = f;
}

void fail(const string& key, const string& detail) {
  if (inSchedule && inSchedule()) {
    reportAndExit({key, detail});
    _exit(0);
  }
  throw ViolationException{{key, detail}};
}

void add(Scenario s) {
  scenarios.push_back(std::move(s));
}

static void writeReplay(const string& path, const char* property, const Found& f, const char* exe) {
  FILE* o = fopen(path.c_str(), "w");
  if (!o) {
    return;
  }
  fprintf(o, "property %s\nbinary %s\ntier %s\nscenario %s\nkey %s\nchoices", property, exe,
          opt.thorough ? "thorough" : "quick", f.scenario.c_str(), f.v.key.c_str());
  for (uint16_t c : f.trace) {
    fprintf(o, " %u", c);
  }
  fprintf(o, "\n\n--- trace ---\n%s\n\n--- failure ---\n%s\n%s\n", f.notes.c_str(), f.v.key.c_str(), f.v.detail.c_str());
  fclose(o);
}

static int replayMain(const char* property) {
  string txt = readFile(opt.replay, 4 << 20);
  auto field = [&](const string& name) {
    size_t p = txt.find("\n" + name + " ");
    if (p == string::npos) {
      return string();
    }
    p += name.size() + 2;
    return txt.substr(p, txt.find('\n', p) - p);
  };
  string sc = field("scenario");
  vector<uint16_t> trace;
  string ch = field("choices");
  char* s = ch.data();
  while (*s) {
    char* e;
    long v = strtol(s, &e, 10);
    if (e == s) {
      break;
    }
    trace.push_back(uint16_t(v));
    s = e;
  }
  for (size_t i = 0; i < scenarios.size(); ++i) {
    if (scenarios[i].name == sc) {
      Found f;
      if (confirm(int(i), trace, 60, f, true)) {
        printf("trace:%s\n%s\n%s\nVIOLATION property=%s replay=%s\n", f.notes.c_str(), f.v.key.c_str(), f.v.detail.c_str(), property, opt.replay.c_str());
        return 1;
      }
      printf("no violation on replay\n");
      return 0;
    }
  }
  fprintf(stderr, "no such scenario: %s\n", sc.c_str());
  return 2;
}

int main(int argc, char** argv, const char* property) {
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    auto next = [&]() { return i + 1 < argc ? string(argv[++i]) : string(); };
    if (a == "--thorough") {
      opt.thorough = true;
    } else if (a == "--jobs") {
      opt.jobs = atoi(next().c_str());
    } else if (a == "--out") {
      opt.out = next();
    } else if (a == "--replays") {
      opt.replayDir = next();
    } else if (a == "--replay") {
      opt.replay = next();
    } else if (a == "--time") {
      opt.timeCap = atof(next().c_str());
    } else if (a == "--exec-cap") {
      opt.execCap = atof(next().c_str());
    } else if (a == "--only") {
      opt.only = next();
    } else if (a == "--seed") {
      opt.seed = atoi(next().c_str());
    } else if (a == "--prop") {
      next();
    } else if (a == "--known") {
      opt.known.push_back(next());
    } else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 2;
    }
  }
  signal(SIGPIPE, SIG_IGN);
  shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (shm == MAP_FAILED) {
    perror("mmap");
    return 2;
  }
  if (opt.replayDir.empty()) {
    opt.replayDir = "/tmp";
  }
  mkdir(opt.replayDir.c_str(), 0700);
  if (!opt.replay.empty()) {
    return replayMain(property);
  }
  if (opt.timeCap == 0) {
    opt.timeCap = opt.thorough ? 3000 : 200;
  }
  opt.jobs = std::min(opt.jobs, kMaxWorkers - 2);

  uint64_t start = nowMs();
  vector<Worker> workers(opt.jobs);
  auto spawn = [&](int i) {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) != 0 || pipe2(b, O_CLOEXEC) != 0) {
      perror("pipe");
      exit(2);
    }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      close(a[1]);
      close(b[0]);
      for (auto& w : workers) {
        if (w.in >= 0) {
          close(w.in);
        }
        if (w.out >= 0) {
          close(w.out);
        }
      }
      workerMain(i, a[0], b[1]);
    }
    close(a[0]);
    close(b[1]);
    workers[i] = {pid, a[1], b[0], false, {}};
  };
  for (int i = 0; i < opt.jobs; ++i) {
    spawn(i);
  }

  // work, by cost; within a cost, first in first out per batch (small prefixes first)
  std::map<uint32_t, std::deque<Item>> queue;
  vector<uint64_t> pending(scenarios.size(), 0), done(scenarios.size(), 0);
  size_t queued = 0;
  for (size_t i = 0; i < scenarios.size(); ++i) {
    if (!opt.only.empty() && scenarios[i].name.find(opt.only) == string::npos) {
      continue;
    }
    queue[0].push_back({uint32_t(i), 0, {}});
    ++queued;
  }
  vector<Found> found;
  std::map<string, uint64_t> keyCount;
  vector<std::pair<string, string>> samples;
  std::set<string> lost;
  uint64_t executions = 0;
  bool stop = false;
  bool timeUp = false;
  vector<uint64_t> scExecs(scenarios.size(), 0);
  auto isKnown = [&](const string& key) {
    return std::find(opt.known.begin(), opt.known.end(), key) != opt.known.end();
  };
  auto record = [&](Found&& f) {
    uint64_t& n = keyCount[f.v.key];
    n++;
    if (n == 1) {
      bool known = isKnown(f.v.key);
      found.push_back(std::move(f));
      if (!known) {
        stop = true;
      }
    }
  };
  auto handleDeath = [&](int i) {
    Worker& w = workers[i];
    int status = 0;
    waitpid(w.pid, &status, 0);
    removeScratch(w.pid);
    close(w.in);
    close(w.out);
    w.in = w.out = -1;
    return status;
  };
  int rounds = 0;
  while (!stop) {
    if ((nowMs() - start) / 1000.0 > opt.timeCap) {
      timeUp = true;
      break;
    }
    // hand out work
    bool anyBusy = false;
    for (int i = 0; i < opt.jobs; ++i) {
      Worker& w = workers[i];
      if (!w.busy && queued > 0) {
        auto it = queue.begin();
        while (it->second.empty()) {
          it = queue.erase(it);
        }
        w.item = std::move(it->second.front());
        it->second.pop_front();
        --queued;
        // small slices while there is little work to share, longer ones after
        uint32_t budget = queued < size_t(opt.jobs) * 4 ? 5 : (queued < 2000 ? 50 : 250);
        Buf b;
        b.u32(w.item.scenario);
        b.u32(w.item.cost);
        b.u32(budget);
        b.vec(w.item.prefix);
        sendMsg(w.in, b);
        w.busy = true;
      }
      anyBusy |= w.busy;
    }
    if (!anyBusy && queued == 0) {
      break;
    }
    vector<struct pollfd> pf;
    vector<int> idx;
    for (int i = 0; i < opt.jobs; ++i) {
      if (workers[i].busy) {
        pf.push_back({workers[i].out, POLLIN, 0});
        idx.push_back(i);
      }
    }
    poll(pf.data(), pf.size(), 200);
    for (size_t k = 0; k < pf.size() && !stop; ++k) {
      int i = idx[k];
      Worker& w = workers[i];
      if (pf[k].revents & (POLLIN | POLLHUP)) {
        string msg;
        if (!recvMsg(w.out, msg)) {
          // the worker died in the middle of an execution
          WorkerShm& ws = shm->w[i];
          vector<uint16_t> trace(ws.choices, ws.choices + std::min<uint32_t>(ws.len, kMaxTrace));
          int sc = int(ws.scenario);
          bool inExec = ws.startedMs != 0;
          int status = handleDeath(i);
          if (inExec && !(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
            string log = readFile(logPathFor(i), 1 << 20);
            Found f;
            if (confirm(sc, trace, opt.execCap * 3, f, false)) {
              record(std::move(f));
            } else {
              f.scenario = scenarios[sc].name;
              f.trace = trace;
              f.v = {crashKey(status, log), "(did not recur when run alone)\n" + firstLines(log, 6000)};
              if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
                lost.insert("worker killed: " + f.v.key);
              } else {
                record(std::move(f));
              }
            }
          } else if (!inExec && !(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
            lost.insert("worker ended between executions, status " + std::to_string(status));
          }
          // the subtree of the item is lost past this violation: put the item's start back unless it failed
          ws.startedMs = 0;
          spawn(i);
          if (++rounds > 200) {
            stop = true;
          }
          continue;
        }
        Rd r{msg.data(), msg.data() + msg.size()};
        uint32_t type = r.u32();
        if (type == kDone) {
          uint32_t n = r.u32();
          executions += n;
          scExecs[w.item.scenario] += n;
          uint32_t cnt = r.u32();
          for (uint32_t c = 0; c < cnt; ++c) {
            Item it;
            it.scenario = r.u32();
            it.cost = r.u32();
            it.prefix = r.vec();
            auto& q = queue[it.cost];
            q.push_front(std::move(it));
            ++queued;
          }
          w.busy = false;
        } else if (type == kViolation) {
          Found f;
          uint32_t sc = r.u32();
          f.scenario = scenarios[sc].name;
          f.trace = r.vec();
          f.v.key = r.str();
          f.v.detail = r.str();
          f.notes = r.str();
          if (keyCount.count(f.v.key)) {
            keyCount[f.v.key]++;
          } else {
            Found g;
            if (confirm(int(sc), f.trace, opt.execCap * 3, g, false)) {
              record(std::move(g));
            } else {
              lost.insert("violation did not recur when run alone: " + f.v.key + ": " + f.v.detail);
              shm->divergences++;
              // believe it all the same: it was observed on the real code
              f.v.detail += " (did not recur when run alone)";
              record(std::move(f));
            }
          }
        } else {
          uint32_t sc = r.u32();
          samples.emplace_back(scenarios[sc].name, r.str());
        }
      } else {
        uint64_t s = shm->w[i].startedMs;
        if (s != 0 && nowMs() > s + uint64_t(opt.execCap * 1000)) {
          WorkerShm& ws = shm->w[i];
          vector<uint16_t> trace(ws.choices, ws.choices + std::min<uint32_t>(ws.len, kMaxTrace));
          int sc = int(ws.scenario);
          kill(w.pid, SIGKILL);
          handleDeath(i);
          Found f;
          if (confirm(sc, trace, opt.execCap * 3, f, false)) {
            record(std::move(f));
          } else {
            lost.insert("execution over " + std::to_string(int(opt.execCap)) + " s, ended when run alone");
            // its children are unknown: explore from the item again
            Item again = w.item;
            queue[again.cost].push_back(again);
            ++queued;
          }
          ws.startedMs = 0;
          spawn(i);
        }
      }
    }
  }
  for (int i = 0; i < opt.jobs; ++i) {
    Worker& w = workers[i];
    close(w.in);
    if (w.busy || stop) {
      kill(w.pid, SIGKILL);
    }
    int status;
    waitpid(w.pid, &status, 0);
    removeScratch(w.pid);
    close(w.out);
    unlink(logPathFor(i).c_str());
  }
  unlink(logPathFor(kMaxWorkers - 1).c_str());

  const bool exhaustive = !timeUp && !stop && lost.empty() && shm->divergences == 0 && shm->truncated == 0;
  double wall = (nowMs() - start) / 1000.0;
  int newViolations = 0, n = 0;
  string violJson;
  for (Found& f : found) {
    string path = opt.replayDir + "/" + property + "-" + std::to_string(n++) + ".replay";
    writeReplay(path, property, f, argv[0]);
    bool known = isKnown(f.v.key);
    if (!known) {
      ++newViolations;
      printf("VIOLATION property=%s replay=%s\n  scenario %s: %s\n  %s\n", property, path.c_str(), f.scenario.c_str(), f.v.key.c_str(), f.v.detail.substr(0, 3000).c_str());
    }
    violJson += string(violJson.empty() ? "" : ",") + "{\"key\":" + jsonStr(f.v.key) + ",\"scenario\":" + jsonStr(f.scenario) + ",\"detail\":" + jsonStr(f.v.detail.substr(0, 2000)) + ",\"replay\":" + jsonStr(path) + ",\"known\":" + (known ? "true" : "false") + "}";
  }
  printf("%s: %llu executions, %llu states, %llu transitions, %llu choice points, %.1f s, %s\n", property, (unsigned long long)executions,
         (unsigned long long)shm->stateCount.load(), (unsigned long long)shm->transitions.load(), (unsigned long long)shm->choicePoints.load(), wall,
         exhaustive ? "exhaustive" : "NOT exhaustive");
  for (auto& l : lost) {
    printf("  note: %s\n", l.c_str());
  }
  if (!opt.out.empty()) {
    FILE* o = fopen(opt.out.c_str(), "w");
    fprintf(o, "{\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"choice_points\":%llu,\"divergences\":%llu,\"truncated\":%llu,\"state_overflow\":%llu,\"exhaustive\":%s,\"wall_s\":%.2f,\"new_violations\":%d,",
            (unsigned long long)executions, (unsigned long long)shm->stateCount.load(), (unsigned long long)shm->transitions.load(), (unsigned long long)shm->traces.load(),
            (unsigned long long)shm->choicePoints.load(), (unsigned long long)shm->divergences.load(), (unsigned long long)shm->truncated.load(), (unsigned long long)shm->stateOverflow.load(), exhaustive ? "true" : "false", wall, newViolations);
    fprintf(o, "\"violations\":[%s],\"counters\":{", violJson.c_str());
    for (int i = 0; i < shm->nCounters; ++i) {
      fprintf(o, "%s%s:%llu", i ? "," : "", jsonStr(shm->counterNames[i]).c_str(), (unsigned long long)shm->counters[i].load());
    }
    fprintf(o, "},\"scenarios\":{");
    bool first = true;
    for (size_t i = 0; i < scenarios.size(); ++i) {
      if (scExecs[i] == 0 && !opt.only.empty()) {
        continue;
      }
      fprintf(o, "%s%s:{\"executions\":%llu,\"bound\":%d}", first ? "" : ",", jsonStr(scenarios[i].name).c_str(), (unsigned long long)scExecs[i], scenarios[i].bound);
      first = false;
    }
    fprintf(o, "},\"notes\":[");
    first = true;
    for (auto& l : lost) {
      fprintf(o, "%s%s", first ? "" : ",", jsonStr(l).c_str());
      first = false;
    }
    fprintf(o, "],\"samples\":[");
    first = true;
    for (auto& s : samples) {
      fprintf(o, "%s%s", first ? "" : ",", jsonStr(s.first + ":" + s.second).c_str());
      first = false;
    }
    fprintf(o, "]}\n");
    fclose(o);
  }
  return newViolations > 0 ? 1 : 0;
}

} // namespace mc
