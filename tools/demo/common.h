// Recording and reading small files, for demonstrations. Everything happens in the current directory.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include <vrs/DataSource.h>
#include <vrs/DiskFile.h>
#include <vrs/FileHandlerFactory.h>
#include <vrs/RecordFileReader.h>
#include <vrs/RecordFileWriter.h>
#include <vrs/RecordFormatStreamPlayer.h>
#include <vrs/Recordable.h>

using namespace vrs;
using namespace std;

struct Source : Recordable {
  explicit Source(RecordableTypeId type = RecordableTypeId::ForwardCameraRecordableClass, const string& flavor = "demo") : Recordable(type, flavor) {}
  const Record* createConfigurationRecord() override {
    return add(Record::Type::CONFIGURATION, now, "config");
  }
  const Record* createStateRecord() override {
    return add(Record::Type::STATE, now, "state");
  }
  const Record* add(Record::Type type, double ts, const string& s, uint32_t version = 1) {
    return createRecord(ts, type, version, DataSource(DataSourceChunk(s.data(), s.size())));
  }
  const Record* data(double ts, const string& s) {
    return add(Record::Type::DATA, ts, s);
  }
  double now = 0;
};

struct Sink : StreamPlayer {
  bool processRecordHeader(const CurrentRecord& r, DataReference& ref) override {
    text.resize(r.recordSize);
    ref.useRawData(text.data(), r.recordSize);
    return true;
  }
  void processRecord(const CurrentRecord& r, uint32_t n) override {
    text.resize(n);
    last = r.streamId.getNumericName() + " " + Record::typeName(r.recordType) + " " + to_string(r.timestamp) + " v" + to_string(r.formatVersion) + " " +
        (n > 40 ? text.substr(0, 20) + "...(" + to_string(n) + ")" : text);
    all.push_back(last);
  }
  string text, last;
  vector<string> all;
};

// one line for each record, or for what goes wrong
inline vector<string> readAll(const string& path, int* status = nullptr, map<string, string>* tags = nullptr) {
  RecordFileReader reader;
  vector<string> out;
  int st = reader.openFile(path);
  if (status) {
    *status = st;
  }
  if (st != 0) {
    return {"open: " + to_string(st)};
  }
  if (tags) {
    *tags = reader.getTags();
  }
  Sink sink;
  for (auto id : reader.getStreams()) {
    reader.setStreamPlayer(id, &sink);
  }
  for (auto& r : reader.getIndex()) {
    sink.last.clear();
    int e = reader.readRecord(r);
    out.push_back(e ? "error " + to_string(e) : sink.last);
  }
  return out;
}

inline string slurp(const string& p) {
  string s;
  if (FILE* f = fopen(p.c_str(), "rb")) {
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof(b), f)) > 0) {
      s.append(b, n);
    }
    fclose(f);
  }
  return s;
}

inline void spit(const string& p, const string& s) {
  FILE* f = fopen(p.c_str(), "wb");
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}

#define EXPECT(c)                                                          \
  do {                                                                     \
    if (!(c)) {                                                            \
      printf("FAILED line %d: %s\n", __LINE__, #c);                        \
      exit(1);                                                             \
    }                                                                      \
  } while (0)

inline void expectSame(const vector<string>& got, const vector<string>& want) {
  for (size_t i = 0; i < max(got.size(), want.size()); ++i) {
    if (i >= got.size() || i >= want.size() || got[i] != want[i]) {
      printf("FAILED: record %zu: got '%s' want '%s'\n", i, i < got.size() ? got[i].c_str() : "(none)", i < want.size() ? want[i].c_str() : "(none)");
      exit(1);
    }
  }
}
