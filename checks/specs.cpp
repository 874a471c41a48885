// File specifications, URIs and stream names: every short text over the characters the parsers tell
// apart, and every specification with small fields, against an independent reading of the same text.
//   C19
#include <climits>
#include <cstring>
#include <memory>

#include <vrs/DiskFile.h>
#include <vrs/FileHandlerFactory.h>
#include <vrs/FileSpec.h>
#include <vrs/StreamId.h>
#include <vrs/helpers/Strings.h>

#include "mc.h"

using namespace std;
using namespace vrs;

namespace {

string S(int64_t v) {
  return to_string(v);
}

string show(string_view s) {
  return helpers::make_printable(string(s));
}

// Text in a buffer of its exact size, so that any access past its end is seen
struct Exact {
  explicit Exact(string_view s) : data{new char[s.size()]}, size{s.size()} {
    if (size > 0) {
      memcpy(data.get(), s.data(), size);
    }
  }
  string_view view() const {
    return {data.get(), size};
  }
  unique_ptr<char[]> data;
  size_t size;
};

// Calls f with every text of up to len characters of the alphabet that starts with the prefix chosen
template <class F>
void allTexts(string_view alphabet, int chosen, int len, const F& f) {
  string text;
  for (int k = 0; k < chosen; ++k) {
    const int c = mc::choose(int(alphabet.size()) + 1, "char");
    if (c == 0) {
      mc::transition();
      f(text);
      return;
    }
    text.push_back(alphabet[c - 1]);
  }
  vector<int> digits;
  uint64_t count = 0;
  // odometer
  for (;;) {
    ++count;
    f(text);
    if (int(text.size()) < len) {
      digits.push_back(0);
      text.push_back(alphabet[0]);
      continue;
    }
    while (!digits.empty() && digits.back() + 1 == int(alphabet.size())) {
      digits.pop_back();
      text.pop_back();
    }
    if (digits.empty()) {
      break;
    }
    text.back() = alphabet[++digits.back()];
  }
  mc::transition(count);
  mc::state(mc::hashStr(text));
}

// ---------- stream ids ----------
bool digitsOnly(string_view s) {
  for (char c : s) {
    if (c < '0' || c > '9') {
      return false;
    }
  }
  return !s.empty();
}

// The value of a number of any length, or -1 above 65535
int numberOf(string_view s) {
  int v = 0;
  for (char c : s) {
    v = v * 10 + (c - '0');
    if (v > 65535) {
      return -1;
    }
  }
  return v;
}

void checkName(string_view text) {
  for (int plus = 0; plus < 2; ++plus) {
    const Exact exact(text);
    const StreamId id = plus ? StreamId::fromNumericNamePlus(exact.view()) : StreamId::fromNumericName(exact.view());
    const size_t sep = text.find(plus ? '+' : '-');
    bool ok = false, canonical = false;
    int type = 0, instance = 0;
    if (sep != string_view::npos) {
      const string_view a = text.substr(0, sep), b = text.substr(sep + 1);
      if (digitsOnly(a) && digitsOnly(b)) {
        type = numberOf(a), instance = numberOf(b);
        ok = type >= 0 && instance >= 0 && type != 65535;
        canonical = ok && to_string(type) == a && to_string(instance) == b;
      }
    }
    if (id.isValid()) {
      mc::check(ok, "name-accepted", "'" + show(text) + "' read as " + id.getNumericName());
      mc::check(int(id.getTypeId()) == type && id.getInstanceId() == instance, "name-value", "'" + show(text) + "' read as " + id.getNumericName());
    } else {
      mc::check(!canonical, "name-refused", "'" + show(text) + "'");
    }
  }
}

void streamTexts() {
  allTexts("0165-+ a\xff", 2, mc::thorough() ? 7 : 6, checkName);
}

void streamNumbers() {
  static const vector<string> numbers{"", "0", "00", "1", "9", "10", "200", "65534", "65535", "65536", "65537", "065534", "131071", "131072", "2147483647", "2147483648", "4294967295",
      "4294967296", "4294967297", "8589934593", "18446744073709551615", "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211457"};
  static const vector<string> seps{"-", "+", "--", "++", " -", "- ", ":", "", "-+"};
  static const vector<string> around{"", " ", "0", "-", "+", "1", "x", string(1, '\0')};
  const string& a = mc::pick(numbers, "type");
  const string& sep = mc::pick(seps, "separator");
  for (auto& b : numbers) {
    for (auto& before : around) {
      for (auto& after : around) {
        checkName(before + a + sep + b + after);
      }
    }
  }
  mc::transition(numbers.size() * around.size() * around.size());
}

void streamIds() {
  const int high = mc::choose(256, "type, high byte");
  vector<int> instances;
  if (mc::thorough()) {
    for (int k = 0; k < 65536; k += 1) {
      instances.push_back(k);
    }
  } else {
    instances = {0, 1, 2, 9, 10, 11, 99, 100, 255, 256, 999, 1000, 9999, 10000, 32767, 32768, 65534, 65535};
  }
  for (int low = 0; low < 256; ++low) {
    const auto type = static_cast<RecordableTypeId>(high * 256 + low);
    for (int instance : instances) {
      const StreamId id(type, uint16_t(instance));
      const string name = id.getNumericName();
      if (instances.size() < 100) {
        mc::check(name == S(high * 256 + low) + "-" + S(instance), "numeric-name", name);
      }
      mc::check(id.isValid() == (high * 256 + low != 65535), "valid", name);
      const StreamId back = StreamId::fromNumericName(name);
      mc::check(id.isValid() ? back == id : !back.isValid(), "name-back", name + " -> " + back.getNumericName());
      string plus = name;
      plus[name.find('-')] = '+';
      const StreamId backPlus = StreamId::fromNumericNamePlus(plus);
      mc::check(id.isValid() ? backPlus == id : !backPlus.isValid(), "name-back", plus + " -> " + backPlus.getNumericName());
    }
  }
  mc::transition(256 * instances.size());
  mc::traceValidated(256 * instances.size());
}

// ---------- URIs ----------
int hexOf(char c) {
  return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}

// Percent decoding; false if there's a control character
bool decode(string_view in, string& out) {
  out.clear();
  for (size_t k = 0; k < in.size(); ++k) {
    int c = uint8_t(in[k]);
    if (c == '%' && k + 2 < in.size() && hexOf(in[k + 1]) >= 0 && hexOf(in[k + 2]) >= 0) {
      c = hexOf(in[k + 1]) * 16 + hexOf(in[k + 2]);
      k += 2;
    }
    if (c < 0x20) {
      return false;
    }
    out.push_back(char(c));
  }
  return true;
}

bool isLetter(char c) {
  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}

bool isScheme(string_view s) {
  if (s.empty() || !isLetter(s[0])) {
    return false;
  }
  for (char c : s) {
    if (!isLetter(c) && !(c >= '0' && c <= '9') && c != '.' && c != '-' && c != '+' && c != '_') {
      return false;
    }
  }
  return true;
}

struct Uri {
  bool ok{false};
  string scheme, path;
  FileSpec::Extras query;
  bool operator==(const Uri& o) const {
    return ok == o.ok && scheme == o.scheme && path == o.path && query == o.query;
  }
};

bool readPair(string_view pair, string& key, string& value) {
  const size_t eq = pair.find('=');
  if (eq == string_view::npos || eq == 0 || eq + 1 == pair.size() || pair.find('=', eq + 1) != string_view::npos) {
    return false;
  }
  return decode(pair.substr(0, eq), key) && decode(pair.substr(eq + 1), value);
}

// [scheme:]path[?key=value{&|;}key=value...], where what isn't a well formed pair is skipped
Uri readUri(string_view text) {
  Uri uri;
  string_view rest = text;
  const size_t colon = text.find(':');
  if (colon != string_view::npos) {
    if (!isScheme(text.substr(0, colon))) {
      return uri;
    }
    uri.scheme = string(text.substr(0, colon));
    rest = text.substr(colon + 1);
  }
  const size_t mark = rest.find('?');
  const string_view path = rest.substr(0, mark);
  if (path.empty() || (colon == string_view::npos && mark == string_view::npos) || !decode(path, uri.path)) {
    return {};
  }
  if (mark != string_view::npos) {
    string_view query = rest.substr(mark + 1);
    while (!query.empty()) {
      const size_t end = query.find_first_of("&;");
      string key, value;
      if (readPair(query.substr(0, end), key, value)) {
        uri.query[key] = value;
      }
      if (end == string_view::npos) {
        break;
      }
      query.remove_prefix(end + 1);
    }
  }
  uri.ok = true;
  return uri;
}

string show(const Uri& u) {
  string s = u.ok ? "scheme '" + show(u.scheme) + "' path '" + show(u.path) + "'" : "refused";
  for (auto& e : u.query) {
    s += " " + show(e.first) + "='" + show(e.second) + "'";
  }
  return s;
}

void checkUri(string_view text) {
  const Exact exact(text);
  const Uri want = readUri(text);
  Uri got;
  got.scheme = "left", got.path = "over", got.query["left"] = "over";
  got.ok = FileSpec::parseUri(exact.view(), got.scheme, got.path, got.query) == 0;
  if (!got.ok) {
    got = {};
  }
  if (!(got == want)) {
    mc::fail("uri", "'" + show(text) + "' is " + show(got) + " rather than " + show(want));
  }
}

void uriTexts() {
  allTexts("aZ9:?=&%/\x01", 3, mc::thorough() ? 8 : 7, checkUri);
}

void uriCodes() {
  allTexts("%0aFg\xe9?:=", 3, mc::thorough() ? 8 : 7, [](string_view text) {
    checkUri(string("ab:p?k=") + string(text));
    checkUri(string("ab:") + string(text) + "?k=v");
    const Exact exact(text);
    string got, want;
    const bool ok = decode(text, want);
    mc::check((FileSpec::urldecode(exact.view(), got) == 0) == ok && (!ok || got == want), "urldecode", show(text) + " -> " + show(got));
    string key, value, wantKey, wantValue;
    const bool pairOk = readPair(text, wantKey, wantValue);
    const bool pairGot = FileSpec::decodeQuery(exact.view(), key, value) == 0;
    mc::check(pairOk == pairGot && (!pairOk || (key == wantKey && value == wantValue)), "decodeQuery", show(text));
  });
}

void uriQueries() {
  static const vector<string> schemes{"", "a:", "diskfile:", "my+st-or.e_9:", "9a:", ":", "a b:"};
  static const vector<string> paths{"", "p", "/a/b.vrs", "//h/p", "a%20b", "%2f", "%", "%2", "%zz", "p:q", "%1f", "%7f", "a\tb", "%c3%a9", "\xc3\xa9"};
  static const vector<string> pairs{"", "k=v", "k=", "=v", "k", "k=v=w", "k=%3d", "%6b=v%20w", "k=%0a", "k2=\xc3\xa9", "k2=%C3%A9", "=", "k=?"};
  static const vector<string> joints{"&", ";", "&&"};
  const string& scheme = mc::pick(schemes, "scheme");
  const string& path = mc::pick(paths, "path");
  const string& joint = mc::pick(joints, "joint");
  for (auto& a : pairs) {
    checkUri(scheme + path + "?" + a);
    for (auto& b : pairs) {
      checkUri(scheme + path + "?" + a + joint + b);
      for (auto& c : pairs) {
        checkUri(scheme + path + "?" + a + joint + b + joint + c);
      }
    }
  }
  checkUri(scheme + path);
  mc::transition(pairs.size() * pairs.size() * pairs.size());
}

// Every byte, percent encoded in either case, or as is
void uriBytes() {
  const int a = mc::choose(256, "byte");
  for (int b = 0; b < 256; ++b) {
    for (int form = 0; form < 3; ++form) {
      string raw{char(a), char(b)}, text;
      for (char c : raw) {
        char hex[8];
        snprintf(hex, sizeof(hex), form == 1 ? "%%%02x" : "%%%02X", uint8_t(c));
        text += form == 0 ? string(1, c) : string(hex);
      }
      string got;
      const Exact exact(text);
      const int status = FileSpec::urldecode(exact.view(), got);
      if (a < 0x20 || b < 0x20) {
        mc::check(status != 0, "urldecode-control", show(text));
      } else if (form != 0 || a != '%') {
        mc::check(status == 0 && got == raw, "urldecode-byte", "'" + show(text) + "' " + (status ? "refused" : "is '" + show(got) + "'"));
      }
      checkUri("my:" + text + "?k=" + text);
    }
  }
  mc::transition(256 * 3);
}

// ---------- paths, JSON or URIs ----------
string show(const FileSpec& s) {
  return show(s.toJson());
}

bool sameFile(const FileSpec& a, const FileSpec& b) {
  return a.fileHandlerName == b.fileHandlerName && a.chunks == b.chunks && a.extras == b.extras && a.chunkSizes == b.chunkSizes && a.fileName == b.fileName;
}

void checkPath(string_view text) {
  const Exact exact(text);
  FileSpec got(vector<string>{"left", "over"});
  got.fileName = "left", got.extras["over"] = "over", got.chunkSizes = {1};
  const int status = got.fromPathJsonUri(exact.view());
  FileSpec want;
  bool ok = true, either = false;
  if (text.empty()) {
    ok = false;
  } else if (text[0] == '{') {
    either = true; // JSON, see below
  } else {
    const size_t colon = text.find(':');
    const bool isUri = colon != string_view::npos && colon > 1 && isScheme(text.substr(0, colon));
    const size_t mark = text.find('?');
    if (isUri) {
      const Uri uri = readUri(text);
      ok = uri.ok;
      want.fileHandlerName = uri.scheme;
      want.uri = string(text);
      want.chunks = {uri.path};
      want.extras = uri.query;
    } else {
      want.fileHandlerName = DiskFile::staticName();
      want.chunks = {string(text)};
      // a path with what looks like a first key=value parameter is taken as a uri without a scheme
      if (mark != string_view::npos && mark > 1 && mark + 2 < text.size() && isLetter(text[mark + 1]) && text.find('=', mark + 2) != string_view::npos) {
        const Uri uri = readUri(text);
        if (uri.ok && uri.scheme.empty()) {
          want.uri = string(text);
          want.chunks = {uri.path};
          want.extras = uri.query;
        }
      }
    }
  }
  if (!either) {
    mc::check((status == 0) == ok, ok ? "path-refused" : "path-accepted", "'" + show(text) + "' " + (status ? "" : show(got)));
    if (ok && !(got == want)) {
      mc::fail("path", "'" + show(text) + "' is " + show(got) + " rather than " + show(want));
    }
  }
  if (status == 0) {
    FileSpec back;
    mc::check(back.fromJson(got.toJson()) && back == got, "json-back", "'" + show(text) + "' " + show(got) + " is read back as " + show(back));
    if (!got.empty()) {
      FileSpec again;
      const string form = got.toPathJsonUri();
      mc::check(again.fromPathJsonUri(form) == 0, "path-back", "'" + show(text) + "' " + show(got) + " is given as '" + show(form) + "' which can't be read");
      // a plain path is for the default handler, whichever disk file handler the file has
      FileSpec expected = got;
      if (expected.isDiskFile() && form[0] != '{') {
        expected.fileHandlerName = DiskFile::staticName();
      }
      mc::check(sameFile(again, expected), "path-back", "'" + show(text) + "' " + show(got) + " is given as '" + show(form) + "' read as " + show(again));
    }
  }
}

void pathTexts() {
  allTexts("a1:?=&{%/.", 3, mc::thorough() ? 7 : 6, checkPath);
}

void pathsBehindUris() {
  // paths that look like something else
  static const vector<string> schemes{"diskfile", "asyncdiskfile", "other", "my+s.t"};
  const string& scheme = mc::pick(schemes, "scheme");
  allTexts("a:?={b ", 2, mc::thorough() ? 6 : 5, [&](string_view path) {
    string text = scheme + ":";
    for (char c : path) {
      text += c == '?' ? string("%3F") : string(1, c);
    }
    checkPath(text);
    checkPath(text + "?k=v");
  });
}

void jsonTexts() {
  allTexts("{}[]\":,a1\\", 3, mc::thorough() ? 7 : 6, [](string_view text) {
    const string json = "{" + string(text);
    const Exact exact(json);
    FileSpec spec(vector<string>{"left", "over"});
    spec.extras["over"] = "left";
    const bool ok = spec.fromJson(exact.view());
    mc::check(ok || spec.empty(), "not-cleared", show(json));
    if (ok) {
      mc::check(spec.extras.count("over") == 0 && spec.chunks.empty(), "left-over", show(json));
      FileSpec back;
      mc::check(back.fromJson(spec.toJson()) && back == spec, "json-back", show(json) + " is read back as " + show(back));
    }
  });
}

void jsonValues() {
  static const vector<string> keys{"chunks", "chunk_sizes", "storage", "filename", "source_uri", "extra"};
  static const vector<string> values{"\"text\"", "\"\"", "1", "-1", "1.5", "null", "true", "[]", "{}", "[\"a\",\"b\"]", "[\"a\",1,null,\"b\"]", "[1,2]", "[1,\"x\",9223372036854775807]", "[18446744073709551615]", "[[1]]", "{\"a\":\"b\"}", "[-9223372036854775808]", "\"a\\u0000b\"", "\"\\ud83d\\ude00\""};
  const string& k1 = mc::pick(keys, "key");
  const string& v1 = mc::pick(values, "value");
  const string& k2 = mc::pick(keys, "key");
  for (auto& v2 : values) {
    for (int cut = 0; cut < 3; ++cut) {
      string json = "{\"" + k1 + "\":" + v1 + ",\"" + k2 + "\":" + v2 + "}";
      json.resize(json.size() - cut);
      const Exact exact(json);
      FileSpec spec;
      spec.fileName = "left";
      const bool ok = spec.fromJson(exact.view());
      mc::check(ok == (cut == 0), "json-accepted", json);
      mc::check(ok || spec.empty(), "not-cleared", json);
      if (ok && k1 != k2) {
        auto text = [&](const string& k) {
          const string& v = k1 == k ? v1 : k2 == k ? v2 : keys[0];
          return v == "\"text\"" ? string("text") : v == "\"a\\u0000b\"" ? string("a\0b", 3) : v == "\"\\ud83d\\ude00\"" ? string("\xf0\x9f\x98\x80") : string();
        };
        mc::check(spec.fileHandlerName == text("storage"), "json-storage", json);
        mc::check(spec.fileName == text("filename"), "json-filename", json);
        mc::check(spec.uri == text("source_uri"), "json-uri", json);
        mc::check(spec.getExtra("extra") == text("extra"), "json-extra", json);
        auto list = [&](const string& k) {
          return k1 == k ? v1 : k2 == k ? v2 : string();
        };
        const string c = list("chunks"), s = list("chunk_sizes");
        mc::check(spec.chunks == (c == "[\"a\",\"b\"]" || c == "[\"a\",1,null,\"b\"]" ? vector<string>{"a", "b"} : c == "[1,\"x\",9223372036854775807]" ? vector<string>{"x"} : vector<string>{}), "json-chunks", json);
        vector<int64_t> sizes;
        if (s == "[1,2]") {
          sizes = {1, 2};
        } else if (s == "[1,\"x\",9223372036854775807]") {
          sizes = {1, INT64_MAX};
        } else if (s == "[-9223372036854775808]") {
          sizes = {INT64_MIN};
        } else if (s == "[\"a\",1,null,\"b\"]") {
          sizes = {1};
        }
        mc::check(spec.chunkSizes == sizes, "json-sizes", json);
      }
      if (ok) {
        FileSpec back;
        mc::check(back.fromJson(spec.toJson()), "json-back", json);
      }
    }
  }
  mc::transition(values.size());
}

// ---------- specifications ----------
const vector<string>& words() {
  static const vector<string> w{"", "a", "file 1.vrs", "q\"uote", "back\\slash", "\n\t\x01", "\x7f", "\xc3\xa9\xf0\x9f\x98\x80", string("nul\0l", 5), "{}", "a:b", "/x/y?z=1", "\xff\xfe", "</script>"};
  return w;
}

void specJson() {
  FileSpec spec;
  static const vector<string> handlers{"", "diskfile", "asyncdiskfile", "my\"store"};
  spec.fileHandlerName = mc::pick(handlers, "handler");
  spec.fileName = mc::pick(words(), "filename");
  const int chunks = mc::choose(4, "chunks");
  const int extras = mc::choose(4, "extras");
  static const vector<int64_t> sizes{0, 1, -1, 5000000000, INT64_MAX, INT64_MIN, INT_MAX, INT_MIN, 4294967295};
  size_t n = 0;
  for (auto& uri : words()) {
    if (!mc::thorough() && n++ % 4 != 0) {
      continue;
    }
    spec.uri = uri;
    for (auto& a : words()) {
      for (auto& b : words()) {
        spec.chunks.clear();
        spec.chunkSizes.clear();
        spec.extras.clear();
        for (int k = 0; k < chunks; ++k) {
          spec.chunks.push_back(k == 1 ? b : a);
          if (chunks != 1) {
            spec.chunkSizes.push_back(sizes[(a.size() * 7 + b.size() + k) % sizes.size()]);
          }
        }
        if (extras >= 1) {
          spec.extras[a] = b;
        }
        if (extras >= 2) {
          spec.extras[b] = a;
        }
        if (extras == 3) {
          spec.extras["k" + a] = b + b;
        }
        const string json = spec.toJson();
        const Exact exact(json);
        FileSpec back(vector<string>{"left", "over"});
        back.chunkSizes = {1};
        back.extras["left"] = "over";
        mc::check(back.fromJson(exact.view()), "json-refused", show(json));
        if (!(back == spec)) {
          mc::fail("json-back", show(json) + " is read back as " + show(back));
        }
        mc::check(back.getXXHash() == spec.getXXHash(), "hash", show(json));
        FileSpec path;
        mc::check(path.fromPathJsonUri(exact.view()) == 0 && path == spec, "json-back", show(json) + " is read back as " + show(path));
      }
    }
  }
  mc::transition(words().size() * words().size() * words().size());
  mc::traceValidated(words().size() * words().size() * words().size());
}

// Values of extras
void extraNumbers() {
  static const vector<int64_t> v64{0, 1, -1, 9, 10, INT_MAX, INT_MIN, INT64_C(2147483648), INT64_C(-2147483649), INT64_MAX, INT64_MIN, 4294967295, 4294967296};
  const int64_t v = mc::pick(v64, "value");
  FileSpec spec;
  spec.setExtra("i64", v);
  spec.setExtra("u64", uint64_t(v));
  spec.setExtra("b", v != 0);
  FileSpec back;
  mc::check(back.fromJson(spec.toJson()) && back == spec, "json-back", S(v));
  mc::check(back.getExtraAsInt64("i64", 77) == v, "int64", S(v));
  mc::check(back.getExtraAsUInt64("u64", 77) == uint64_t(v), "uint64", S(v));
  mc::check(back.getExtraAsBool("b", v == 0) == (v != 0), "bool", S(v));
  const bool fits = v >= INT_MIN && v <= INT_MAX;
  mc::check(back.getExtraAsInt("i64", 77) == (fits ? v : 77), "int", S(v));
  mc::check(back.getExtraAsUInt64("i64", 77) == (v >= 0 ? uint64_t(v) : 77), "uint64", S(v));
  mc::check(back.getExtraAsInt64("none", 77) == 77 && back.getExtraAsUInt64("none", 78) == 78 && back.getExtraAsInt("none", 79) == 79 && back.getExtraAsBool("none", true), "absent", S(v));
  mc::transition();
}

void numberTexts() {
  allTexts("0192+- x", 2, mc::thorough() ? 6 : 5, [](string_view text) {
    const Exact exact(text);
    // [-]digits
    string_view digits = text;
    const bool minus = !digits.empty() && digits[0] == '-';
    if (minus) {
      digits.remove_prefix(1);
    }
    const bool number = digitsOnly(digits);
    const int64_t value = number ? stoll(string(digits)) * (minus ? -1 : 1) : 0;
    int i = 5;
    int64_t l = 5;
    uint64_t u = 5;
    mc::check(helpers::readInt(exact.view(), i) == number && (!number || i == value), "readInt", show(text));
    mc::check(helpers::readInt64(exact.view(), l) == number && (!number || l == value), "readInt64", show(text));
    const bool natural = number && !minus;
    mc::check(helpers::readUInt64(exact.view(), u) == natural && (!natural || u == uint64_t(value)), "readUInt64", show(text));
    uint64_t bytes = 5;
    const bool isBytes = helpers::readByteSize(exact.view(), bytes);
    if (natural) {
      mc::check(isBytes && bytes == uint64_t(value), "readByteSize", show(text));
    }
    bool b = false;
    mc::check(helpers::readBool(exact.view(), b) == !text.empty() && (text.empty() || b == (text != "0")), "readBool", show(text));
  });
}

void byteSizes() {
  static const vector<pair<string, int>> units{{"", 0}, {"b", 0}, {"kb", 10}, {"mb", 20}, {"gb", 30}, {"tb", 40}};
  static const vector<string> junk{"", " ", "b", "x", "k", "1"};
  const auto& unit = mc::pick(units, "unit");
  for (uint64_t v : {uint64_t(0), uint64_t(1), uint64_t(7), uint64_t(1000), uint64_t(1 << 20), uint64_t(16777215)}) {
    for (int up = 0; up < 4; ++up) {
      string u = unit.first;
      for (size_t k = 0; k < u.size(); ++k) {
        if (up >> k & 1) {
          u[k] = char(toupper(u[k]));
        }
      }
      for (auto& j : junk) {
        const string text = to_string(v) + u + j;
        uint64_t got = 5;
        const Exact exact(text);
        const bool ok = helpers::readByteSize(exact.view(), got);
        if (j.empty()) {
          mc::check(ok && got == v << unit.second, "readByteSize", text + " -> " + to_string(got));
        } else if (!u.empty()) {
          mc::check(!ok, "readByteSize-junk", text + " -> " + to_string(got));
        }
      }
    }
  }
  mc::transition();
}

} // namespace

int main(int argc, char** argv) {
  mc::add({"stream/texts", streamTexts});
  mc::add({"stream/numbers", streamNumbers});
  mc::add({"stream/ids", streamIds});
  mc::add({"uri/texts", uriTexts});
  mc::add({"uri/codes", uriCodes});
  mc::add({"uri/queries", uriQueries});
  mc::add({"uri/bytes", uriBytes});
  mc::add({"path/texts", pathTexts});
  mc::add({"path/behind", pathsBehindUris});
  mc::add({"json/texts", jsonTexts});
  mc::add({"json/values", jsonValues});
  mc::add({"spec/json", specJson});
  mc::add({"extra/numbers", extraNumbers});
  mc::add({"extra/texts", numberTexts});
  mc::add({"extra/bytes", byteSizes});
  return mc::main(argc, argv, "C19");
}
