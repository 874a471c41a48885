#include "fsx.h"

#include <cerrno>
#include <cstdio>
#include <cstring>

#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include "mc.h"

extern "C" {
FILE* __real_fopen(const char* path, const char* mode);
int __real_fileno(FILE* f);
int __real_ftruncate(int fd, off_t size);
int __real_rename(const char* a, const char* b);
int __real_remove(const char* a);
int __real_unlink(const char* a);
}

namespace fsx {
namespace {

bool active = false;
bool logging = false;
std::function<Fault(const Op&)>* faults = nullptr;
std::vector<Op>* ops = nullptr;
uint64_t opCount = 0;
int bufferSize = -1;

struct Cookie {
  int fd;
  std::string path;
  int64_t pos = 0;
  std::vector<char> buffer;
};
std::vector<char> retired; // fclose() might still look at the last closed file's
std::map<FILE*, Cookie*>& cookies() {
  static auto* m = new std::map<FILE*, Cookie*>;
  return *m;
}
bool ours(const char* path) {
  const std::string& s = mc::scratch();
  return strncmp(path, s.c_str(), s.size()) == 0;
}

Fault ask(const Op& op) {
  if (!active) {
    return {};
  }
  ++opCount;
  if (faults != nullptr && *faults) {
    return (*faults)(op);
  }
  return {};
}
void record(Op&& op) {
  if (active && logging) {
    ops->push_back(std::move(op));
  }
}

ssize_t cRead(void* c, char* buf, size_t n) {
  auto* k = static_cast<Cookie*>(c);
  Op op;
  op.kind = kRead;
  op.path = k->path;
  op.pos = k->pos;
  op.size = n;
  Fault f = ask(op);
  if (f.eof) {
    return 0;
  }
  if (f.fail) {
    errno = f.err;
    return -1;
  }
  if (f.partial > 0) {
    n = std::min(n, size_t(f.partial));
  }
  ssize_t r = pread(k->fd, buf, n, k->pos);
  if (r > 0) {
    k->pos += r;
  }
  return r;
}

ssize_t cWrite(void* c, const char* buf, size_t n) {
  auto* k = static_cast<Cookie*>(c);
  Op op;
  op.kind = kWrite;
  op.path = k->path;
  op.pos = k->pos;
  op.size = n;
  op.data.assign(buf, buf + n);
  Fault f = ask(op);
  size_t todo = n;
  if (f.fail) {
    todo = f.partial < 0 ? 0 : std::min<size_t>(n, size_t(f.partial));
  }
  size_t done = 0;
  while (done < todo) {
    ssize_t w = pwrite(k->fd, buf + done, todo - done, k->pos + int64_t(done));
    if (w <= 0) {
      break;
    }
    done += size_t(w);
  }
  k->pos += int64_t(done);
  op.data.resize(done);
  if (done > 0) {
    record(std::move(op));
  }
  if (f.fail) {
    errno = f.err;
  }
  return ssize_t(done);
}

int cSeek(void* c, off64_t* off, int whence) {
  auto* k = static_cast<Cookie*>(c);
  Op op;
  op.kind = kSeek;
  op.path = k->path;
  op.pos = *off;
  // asking for the position is no seek
  if (!(whence == SEEK_CUR && *off == 0)) {
    Fault f = ask(op);
    if (f.fail) {
      errno = f.err;
      return -1;
    }
  }
  int64_t base = 0;
  if (whence == SEEK_CUR) {
    base = k->pos;
  } else if (whence == SEEK_END) {
    struct stat st{};
    fstat(k->fd, &st);
    base = st.st_size;
  }
  if (base + *off < 0) {
    errno = EINVAL;
    return -1;
  }
  k->pos = base + *off;
  *off = k->pos;
  return 0;
}

int cClose(void* c) {
  auto* k = static_cast<Cookie*>(c);
  Op op;
  op.kind = kClose;
  op.path = k->path;
  Fault f = ask(op);
  for (auto it = cookies().begin(); it != cookies().end(); ++it) {
    if (it->second == k) {
      cookies().erase(it);
      break;
    }
  }
  close(k->fd);
  retired.swap(k->buffer);
  delete k;
  record(std::move(op));
  if (f.fail) {
    errno = f.err;
    return -1;
  }
  return 0;
}

FILE* doOpen(const char* path, const char* mode) {
  const bool plus = strchr(mode, '+') != nullptr;
  Op op;
  op.kind = mode[0] == 'w' ? kCreate : kOpen;
  op.path = path;
  Fault f = ask(op);
  if (f.fail) {
    errno = f.err;
    return nullptr;
  }
  int flags = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
  int fd = open(path, flags | O_CLOEXEC, 0600);
  if (fd < 0) {
    return nullptr;
  }
  if (op.kind == kCreate) {
    record(std::move(op));
  }
  auto* k = new Cookie{fd, path};
  cookie_io_functions_t io{};
  io.read = mode[0] == 'r' || plus ? cRead : nullptr;
  io.write = mode[0] != 'r' || plus ? cWrite : nullptr;
  io.seek = cSeek;
  io.close = cClose;
  FILE* file = fopencookie(k, mode, io);
  if (file != nullptr) {
    cookies()[file] = k;
    if (bufferSize >= 0) {
      // (the C library only minds the size with a buffer)
      k->buffer.resize(size_t(bufferSize));
      setvbuf(file, k->buffer.data(), bufferSize == 0 ? _IONBF : _IOFBF, size_t(bufferSize));
    }
  }
  return file;
}

} // namespace

const char* kindName(Kind k) {
  static const char* n[] = {"open", "create", "read", "seek", "write", "truncate", "close", "rename", "remove"};
  return n[k];
}
std::string Op::str() const {
  std::string s = kindName(kind);
  size_t slash = path.rfind('/');
  s += " " + path.substr(slash == std::string::npos ? 0 : slash + 1);
  if (!path2.empty()) {
    slash = path2.rfind('/');
    s += " to " + path2.substr(slash == std::string::npos ? 0 : slash + 1);
  }
  if (kind == kWrite || kind == kRead) {
    s += " " + std::to_string(size) + " bytes at " + std::to_string(pos);
  } else if (kind == kTruncate || kind == kSeek) {
    s += " " + std::to_string(pos);
  }
  return s;
}

void begin(bool log, std::function<Fault(const Op&)> fault) {
  if (ops == nullptr) {
    ops = new std::vector<Op>;
    faults = new std::function<Fault(const Op&)>;
  }
  ops->clear();
  *faults = std::move(fault);
  logging = log;
  opCount = 0;
  active = true;
}
void end() {
  active = false;
}
void setBuffer(int size) {
  bufferSize = size;
}
std::vector<int64_t> cutPoints(size_t size, size_t all, size_t ends) {
  std::vector<int64_t> v;
  for (size_t n = 1; n < size; ++n) {
    if (size > all && n > ends && n != size / 2 && n + ends < size) {
      n = n < size / 2 ? size / 2 : size - ends; // skip
    }
    if (size <= all || n <= ends || n + ends >= size || n == size / 2) {
      v.push_back(int64_t(n));
    }
  }
  return v;
}
const std::vector<Op>& log() {
  return *ops;
}
uint64_t operations() {
  return opCount;
}

Images snapshot(const std::string& dir) {
  Images m;
  DIR* d = opendir(dir.c_str());
  if (d == nullptr) {
    return m;
  }
  while (dirent* e = readdir(d)) {
    std::string p = dir + "/" + e->d_name;
    struct stat st{};
    if (e->d_name[0] == '.' || stat(p.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) {
      continue;
    }
    std::vector<uint8_t> b(size_t(st.st_size));
    int fd = open(p.c_str(), O_RDONLY);
    size_t n = 0;
    while (fd >= 0 && n < b.size()) {
      ssize_t r = read(fd, b.data() + n, b.size() - n);
      if (r <= 0) {
        break;
      }
      n += size_t(r);
    }
    close(fd);
    m[p] = std::move(b);
  }
  closedir(d);
  return m;
}

void apply(Images& m, const Op& op, int64_t partial) {
  switch (op.kind) {
    case kCreate:
      m[op.path].clear();
      break;
    case kWrite: {
      size_t n = partial < 0 ? op.data.size() : std::min<size_t>(op.data.size(), size_t(partial));
      auto& b = m[op.path];
      if (n > 0 && b.size() < size_t(op.pos) + n) {
        b.resize(size_t(op.pos) + n);
      }
      if (n > 0) {
        memcpy(b.data() + op.pos, op.data.data(), n);
      }
      break;
    }
    case kTruncate:
      m[op.path].resize(size_t(op.pos));
      break;
    case kRename: {
      auto it = m.find(op.path);
      if (it != m.end()) {
        std::vector<uint8_t> b = std::move(it->second);
        m.erase(it);
        m[op.path2] = std::move(b);
      }
      break;
    }
    case kRemove:
      m.erase(op.path);
      break;
    default:
      break;
  }
}

void materialize(const Images& m, const std::string& from, const std::string& to) {
  mkdir(to.c_str(), 0700);
  if (DIR* d = opendir(to.c_str())) {
    std::vector<std::string> names;
    while (dirent* e = readdir(d)) {
      if (strcmp(e->d_name, ".") != 0 && strcmp(e->d_name, "..") != 0) {
        names.push_back(to + "/" + e->d_name);
      }
    }
    closedir(d);
    for (auto& n : names) {
      __real_unlink(n.c_str());
    }
  }
  for (auto& f : m) {
    if (f.first.compare(0, from.size(), from) != 0 || f.first[from.size()] != '/' || f.first.find('/', from.size() + 1) != std::string::npos) {
      continue;
    }
    int fd = open((to + f.first.substr(from.size())).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    size_t n = 0;
    while (n < f.second.size()) {
      ssize_t w = write(fd, f.second.data() + n, f.second.size() - n);
      if (w <= 0) {
        break;
      }
      n += size_t(w);
    }
    close(fd);
  }
}

} // namespace fsx

extern "C" {

FILE* __wrap_fopen(const char* path, const char* mode) {
  return fsx::ours(path) ? fsx::doOpen(path, mode) : __real_fopen(path, mode);
}
FILE* __wrap_fopen64(const char* path, const char* mode) {
  return __wrap_fopen(path, mode);
}
int __wrap_fileno(FILE* f) {
  auto it = fsx::cookies().find(f);
  return it != fsx::cookies().end() ? it->second->fd : __real_fileno(f);
}
int __wrap_ftruncate(int fd, off_t size) {
  for (auto& c : fsx::cookies()) {
    if (c.second->fd == fd) {
      fsx::Op op;
      op.kind = fsx::kTruncate;
      op.path = c.second->path;
      op.pos = size;
      fsx::Fault f = fsx::ask(op);
      if (f.fail) {
        errno = f.err;
        return -1;
      }
      int r = __real_ftruncate(fd, size);
      if (r == 0) {
        fsx::record(std::move(op));
      }
      return r;
    }
  }
  return __real_ftruncate(fd, size);
}
int __wrap_ftruncate64(int fd, off_t size) {
  return __wrap_ftruncate(fd, size);
}
int __wrap_rename(const char* a, const char* b) {
  if (!fsx::ours(a)) {
    return __real_rename(a, b);
  }
  fsx::Op op;
  op.kind = fsx::kRename;
  op.path = a;
  op.path2 = b;
  fsx::Fault f = fsx::ask(op);
  if (f.fail) {
    errno = f.err;
    return -1;
  }
  int r = __real_rename(a, b);
  if (r == 0) {
    fsx::record(std::move(op));
  }
  return r;
}
static int doRemove(const char* a, int (*real)(const char*)) {
  if (!fsx::ours(a)) {
    return real(a);
  }
  fsx::Op op;
  op.kind = fsx::kRemove;
  op.path = a;
  fsx::Fault f = fsx::ask(op);
  if (f.fail) {
    errno = f.err;
    return -1;
  }
  int r = real(a);
  if (r == 0) {
    fsx::record(std::move(op));
  }
  return r;
}
int __wrap_remove(const char* a) {
  return doRemove(a, __real_remove);
}
int __wrap_unlink(const char* a) {
  return doRemove(a, __real_unlink);
}
}
