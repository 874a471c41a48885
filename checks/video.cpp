// Playing videos: which frames are decoded, on which basis, and which are asked for (C23).
#include "vrsutil.h"

#include <vrs/DataLayoutConventions.h>
#include <vrs/utils/PixelFrame.h>
#include <vrs/utils/VideoRecordFormatStreamPlayer.h>

using namespace std;
using namespace vu;
using namespace vrs::utils;

namespace {

const char* kCodec = "counting";
constexpr uint32_t kWidth = 8, kHeight = 2; // of the decoded image: a group (8 bytes), an index, and how many were decoded

struct Frame {
  double group{};
  uint32_t index{};
  bool operator==(const Frame& o) const {
    return group == o.group && index == o.index;
  }
};

// What the decoders saw
struct Watch {
  vector<string> trace;
  bool failNext = false; // the next decoding
  bool refuseMaking = false;
  int decoded = 0;
  int made = 0;
  Frame lastDecoded;
  string wrong;
} watch;

struct Counting : public DecoderI {
  bool valid = false; // something was decoded, nothing failed since
  Frame last;
  int decode(const vector<uint8_t>& encoded, void* out, const ImageContentBlockSpec& spec) override {
    Frame f;
    if (encoded.size() != sizeof(f.group) + sizeof(f.index)) {
      watch.wrong = "encoded frame of " + to_string(encoded.size()) + " bytes";
      return domainError(DecodeStatus::DecoderError);
    }
    memcpy(&f.group, encoded.data(), sizeof(f.group));
    memcpy(&f.index, encoded.data() + sizeof(f.group), sizeof(f.index));
    if (f.index != 0 && !(valid && last.group == f.group && last.index + 1 == f.index)) {
      watch.wrong = "frame " + F(f.group) + "/" + to_string(f.index) + " decoded after " + (valid ? F(last.group) + "/" + to_string(last.index) : string("nothing, or a failure"));
    }
    if (watch.failNext) {
      watch.failNext = false;
      valid = false;
      return domainError(DecodeStatus::DecoderError);
    }
    valid = true;
    last = f;
    watch.decoded++;
    watch.lastDecoded = f;
    if (spec.getRawImageSize() != kWidth * kHeight) {
      watch.wrong = "output of " + to_string(spec.getRawImageSize()) + " bytes";
    }
    memset(out, 0, kWidth * kHeight);
    memcpy(out, encoded.data(), encoded.size());
    return 0;
  }
  void flush() override {
    valid = false;
  }
};

// As the decoders of the project do, makes sure that it works by decoding the frame.
unique_ptr<DecoderI> makeCounting(const vector<uint8_t>& encoded, void* out, const ImageContentBlockSpec& spec, const DecoderOptions&) {
  if (spec.getCodecName() != kCodec) {
    return nullptr;
  }
  watch.made++;
  if (watch.refuseMaking) {
    watch.refuseMaking = false;
    return nullptr;
  }
  auto d = make_unique<Counting>();
  return d->decode(encoded, out, spec) == 0 ? std::move(d) : nullptr;
}

struct FrameLayout : public AutoDataLayout {
  DataPieceValue<double> keyFrameTimestamp{datalayout_conventions::kImageKeyFrameTimeStamp};
  DataPieceValue<datalayout_conventions::ImageSpecType> keyFrameIndex{datalayout_conventions::kImageKeyFrameIndex};
  DataPieceValue<datalayout_conventions::ImageSpecType> width{datalayout_conventions::kImageWidth};
  DataPieceValue<datalayout_conventions::ImageSpecType> height{datalayout_conventions::kImageHeight};
  DataPieceEnum<PixelFormat, datalayout_conventions::ImageSpecType> pixelFormat{datalayout_conventions::kImagePixelFormat};
  AutoDataLayoutEnd end;
};
struct OtherLayout : public AutoDataLayout {
  DataPieceValue<uint32_t> n{"n"};
  AutoDataLayoutEnd end;
};

struct Camera : public Recordable {
  FrameLayout frame;
  OtherLayout other;
  Camera() : Recordable(RecordableTypeId::UnitTest1) {
    setCompression(CompressionPreset::None);
    addRecordFormat(Type::DATA, 1, frame.getContentBlock() + ContentBlock(ImageContentBlockSpec(kCodec, 50, PixelFormat::GREY8, kWidth, kHeight)), {&frame});
    for (Type t : {Type::CONFIGURATION, Type::STATE}) {
      addRecordFormat(t, 1, other.getContentBlock(), {&other});
    }
  }
  void add(double time, const Frame& f) {
    frame.keyFrameTimestamp.set(f.group);
    frame.keyFrameIndex.set(f.index);
    frame.width.set(kWidth);
    frame.height.set(kHeight);
    frame.pixelFormat.set(PixelFormat::GREY8);
    uint8_t data[sizeof(f.group) + sizeof(f.index)];
    memcpy(data, &f.group, sizeof(f.group));
    memcpy(data + sizeof(f.group), &f.index, sizeof(f.index));
    createRecord(time, Type::DATA, 1, DataSource(frame, DataSourceChunk(data, sizeof(data))));
  }
  void addOther(double time, Type type) {
    other.n.set(7);
    createRecord(time, type, 1, DataSource(other));
  }
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
};

// Reads nothing, in the place of the reader of the record.
struct Failing : public RecordReader {
  int read(DataReference&, uint32_t& outReadSize) override {
    outReadSize = 0;
    return READ_ERROR;
  }
  CompressionType getCompressionType() const override {
    return CompressionType::None;
  }
};

enum Completion { kNone, kExactAtCompletion, kOneAtCompletion, kExactAfter, kOneAfter };

// What the documentation of the handler says about the state of one stream
struct Model {
  bool valid = false; // the decoder has the last frame
  bool maybe = false; // a read failed since: it may also start again from a key frame
  Frame last;
  bool decodable(const Frame& f) const {
    return f.index == 0 || (valid && last.group == f.group && last.index + 1 == f.index);
  }
};

struct Player : public VideoRecordFormatStreamPlayer {
  bool usePixelFrame = false;
  int completion = kNone;
  bool swallow = false; // returns true, whatever the decoding says
  bool failRead = false;
  map<StreamId, Model> models;
  // of the last image
  int images = 0;
  int status = -1;
  Frame shown;
  Frame asked;
  StreamId stream;
  vector<uint8_t> pixels;
  PixelFrame pixelFrame;
  int completionStatus = 0;
  int readsWhileMissing = 0;

  bool onDataLayoutRead(const CurrentRecord&, size_t, DataLayout&) override {
    return true;
  }
  bool onImageRead(const CurrentRecord& r, size_t, const ContentBlock& cb) override {
    images++;
    if (whileReadingMissingFrames()) {
      readsWhileMissing++;
    }
    stream = r.streamId;
    asked.group = cb.image().getKeyFrameTimestamp();
    asked.index = cb.image().getKeyFrameIndex();
    CurrentRecord record = r;
    Failing failing;
    Model& m = models[r.streamId];
    const bool readFails = failRead && m.decodable(asked); // (or else nothing is read)
    if (failRead) {
      failRead = false;
      record.reader = &failing;
    }
    shown = {};
    const uint8_t* p = nullptr;
    if (usePixelFrame) {
      status = tryToDecodeFrame(pixelFrame, record, cb);
      p = pixelFrame.rdata();
    } else {
      pixels.assign(kWidth * kHeight, 0xEE);
      status = tryToDecodeFrame(pixels.data(), record, cb);
      p = pixels.data();
    }
    if (status == 0) {
      m = {true, false, asked};
    } else if (readFails && status != domainError(DecodeStatus::FrameSequenceError)) {
      m.maybe = true;
    } else if (status != domainError(DecodeStatus::FrameSequenceError)) {
      m = {};
    }
    if (status == 0) {
      memcpy(&shown.group, p, sizeof(shown.group));
      memcpy(&shown.index, p + sizeof(shown.group), sizeof(shown.index));
    }
    return status == 0 || swallow;
  }
  int recordReadComplete(RecordFileReader& reader, const IndexRecord::RecordInfo& record) override {
    if (record.recordType == Type::DATA && (completion == kExactAtCompletion || completion == kOneAtCompletion)) {
      if (!whileReadingMissingFrames()) {
        completionStatus = readMissingFrames(reader, record, completion == kExactAtCompletion);
      }
      return completionStatus;
    }
    return 0;
  }
};

// Two streams. In the first, a group of four frames with a state record in the middle, a group of
// two, a frame that follows one that was never recorded, and a group of three. In the second, two groups.
struct Movie {
  struct Shot {
    size_t stream;
    Frame frame;
    double time;
    bool gap; // frames before it in its group were not recorded
  };
  vector<Shot> shots; // the frames, in the order of the file
  string path;
};
Movie makeMovie(const string& dir) {
  Movie m;
  m.path = dir + "/movie.vrs";
  Recordable::resetNewInstanceIds();
  RecordFileWriter w;
  Camera cams[2];
  for (auto& c : cams) {
    w.addRecordable(&c);
  }
  double t = 0;
  auto shot = [&](size_t cam, double group, uint32_t index, bool gap = false) {
    t += 1;
    const Frame f{group < 0 ? t : group, index};
    cams[cam].add(t, f);
    m.shots.push_back({cam, f, t, gap});
    return f.group;
  };
  cams[0].addOther(0.5, Type::CONFIGURATION);
  double g = shot(0, -1, 0);
  const double other = shot(1, -1, 0);
  shot(0, g, 1);
  cams[0].addOther(t + 0.25, Type::STATE);
  shot(0, g, 2);
  shot(1, other, 1);
  shot(0, g, 3);
  g = shot(0, -1, 0);
  shot(0, g, 1);
  shot(0, g, 3, true);
  g = shot(0, -1, 0);
  cams[0].addOther(t + 0.25, Type::CONFIGURATION);
  shot(0, g, 1);
  shot(0, g, 2);
  shot(1, -1, 0);
  mc::check(w.writeToFile(m.path) == 0, "write");
  return m;
}

struct Run {
  Movie movie;
  unique_ptr<RecordFileReader> reader;
  vector<const IndexRecord::RecordInfo*> infos;
  vector<StreamId> streams;
};

void movieBody(int steps) {
  static map<string, Run> runs;
  static bool registered = false;
  if (!registered) {
    registered = true;
    DecoderFactory::get().registerDecoderMaker(DecoderMaker(makeCounting));
  }
  Run& run = runs[mc::scratch()];
  if (!run.reader) {
    run.movie = makeMovie(cleanScratch());
    run.reader = make_unique<RecordFileReader>();
    mc::check(run.reader->openFile(run.movie.path) == 0, "open");
    for (auto& id : run.reader->getStreams()) {
      run.streams.push_back(id);
    }
    for (auto& s : run.movie.shots) {
      run.infos.push_back(run.reader->getRecordByTime(run.streams[s.stream], Type::DATA, s.time));
      mc::check(run.infos.back() && run.infos.back()->timestamp == s.time, "harness-frame");
    }
  }
  RecordFileReader& reader = *run.reader;
  const auto& shots = run.movie.shots;
  watch = {};
  Player player;
  player.completion = mc::choose(5, "completion");
  player.usePixelFrame = mc::choose(2, "pixel-frame", 1) == 1;
  player.swallow = mc::choose(2, "swallow", 1) == 1;
  for (auto id : run.streams) {
    reader.setStreamPlayer(id, &player);
  }
  string story;
  auto ctx = [&]() { return story + " (completion " + to_string(player.completion) + ")"; };
  for (int step = 0; step < steps; ++step) {
    const int op = mc::choose(int(shots.size()) + 3, "op");
    if (op >= int(shots.size()) + 1) {
      // forget the state of all streams, or of the second one
      const bool all = op == int(shots.size()) + 1;
      story += all ? " reset" : " reset-second";
      if (all) {
        player.resetVideoFrameHandler();
        player.models.clear();
      } else {
        player.resetVideoFrameHandler(run.streams[1]);
      }
      player.models[run.streams[1]] = {};
      continue;
    }
    if (op == int(shots.size())) {
      break;
    }
    const Movie::Shot& s = shots[size_t(op)];
    Model& m = player.models[run.streams[s.stream]];
    const Model before = m;
    // what goes wrong: nothing, the first decoding, making the decoder, the first read, or the decoding of a missing frame
    const int trouble = mc::choose(4, "trouble", 1);
    watch.failNext = trouble == 1;
    watch.refuseMaking = trouble == 2;
    player.failRead = trouble == 3;
    watch.decoded = 0;
    player.images = player.readsWhileMissing = 0;
    player.completionStatus = 0;
    if (true) {
      story += " " + F(s.frame.group) + "/" + to_string(s.frame.index) + "@" + to_string(s.stream) + (trouble ? "!" + to_string(trouble) : "");
    }
    const bool decodable = m.decodable(s.frame);
    const int status = reader.readRecord(*run.infos[size_t(op)]);
    VideoFrameHandler& handler = player.getVideoFrameHandler(run.streams[s.stream]);
    int catchUp = player.completionStatus;
    if (player.completion == kNone || player.completion == kExactAfter || player.completion == kOneAfter) {
      mc::check(player.images == 1, "image-not-delivered", ctx());
      // one frame was visited
      const bool hit = trouble != 0 && !watch.failNext && !watch.refuseMaking && !player.failRead && decodable;
      if (!decodable) {
        mc::check(player.status == domainError(DecodeStatus::FrameSequenceError), "sequence-error", ctx() + ": " + to_string(player.status));
        mc::check(player.isMissingFrames(run.streams[s.stream]) && handler.isMissingFrames(), "missing-not-told", ctx());
        mc::check(handler.getRequestedKeyFrameTimestamp() == s.frame.group && handler.getRequestedKeyFrameIndex() == s.frame.index, "wrong-request", ctx());
        // frames of its group that don't need to be decoded again
        const uint32_t skip = handler.getFramesToSkip();
        const uint32_t mayskip = before.valid && before.last.group == s.frame.group && before.last.index < s.frame.index ? before.last.index + 1 : 0;
        mc::check(skip == mayskip || (before.maybe && skip == 0), "frames-to-skip", ctx() + ": " + to_string(skip) + " instead of " + to_string(mayskip));
      } else if (!hit) {
        if (!(before.maybe && s.frame.index != 0)) {
          mc::check(player.status == 0, "decodable-frame-refused", ctx() + ": " + to_string(player.status));
        }
        if (player.status == 0) {
          mc::check(player.shown == s.frame, "wrong-image", ctx());
          mc::check(!player.isMissingFrames(run.streams[s.stream]), "missing-told", ctx());
        }
      } else {
        mc::check(player.status != 0, "failure-hidden", ctx());
      }
      if (player.swallow) {
        mc::check(status == 0, "read-status", ctx() + ": " + to_string(status));
      }
      if (player.completion != kNone) {
        const bool missing = handler.isMissingFrames();
        player.images = 0;
        catchUp = player.readMissingFrames(reader, *run.infos[size_t(op)], player.completion == kExactAfter);
        mc::check(missing || player.images == 0, "needless-reads", ctx());
      }
    }
    mc::check(watch.wrong.empty(), "wrong-basis", ctx() + ": " + watch.wrong);
    mc::check(!player.whileReadingMissingFrames(), "still-reading-missing", ctx());
    const bool exact = player.completion == kExactAtCompletion || player.completion == kExactAfter;
    const bool once = player.completion == kOneAtCompletion || player.completion == kOneAfter;
    const bool hit = trouble != 0 && !watch.failNext && !watch.refuseMaking && !player.failRead;
    if (exact) {
      if (!hit) {
        if (s.gap) {
          mc::check(catchUp != 0 && player.isMissingFrames(run.streams[s.stream]), "missing-frame-invented", ctx());
        } else {
          mc::check(catchUp == 0, "frame-not-reached", ctx() + ": " + to_string(catchUp));
          mc::check(player.status == 0 && player.shown == s.frame && player.asked == s.frame && player.stream == run.streams[s.stream], "wrong-frame-reached", ctx() + ": " + F(player.asked.group) + "/" + to_string(player.asked.index));
          mc::check(!player.isMissingFrames(run.streams[s.stream]), "missing-told", ctx());
        }
      } else if (catchUp == 0 && player.status == 0) {
        mc::check(player.shown == s.frame, "another-frame-shown", ctx());
      }
    }
    if (once) {
      mc::check(player.readsWhileMissing <= 1, "several-frames-read", ctx());
    }
    mc::transition();
    mc::state(mc::hashInt(uint64_t(op), mc::hashInt(uint64_t(m.last.group * 8) + m.last.index, mc::hashInt(uint64_t(m.valid) + uint64_t(trouble) * 2, uint64_t(player.completion)))));
  }
  for (auto id : run.streams) {
    reader.setStreamPlayer(id, nullptr);
  }
  mc::traceValidated();
}

} // namespace

int main(int argc, char** argv) {
  bool deep = false;
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
  }
  mc::add({"visits", [deep]() { movieBody(deep ? 4 : 3); }, deep ? 2 : 1});
  mc::add({"failures", [deep]() { movieBody(deep ? 3 : 2); }, deep ? 4 : 3});
  mc::add({"long-visits", [deep]() { movieBody(deep ? 5 : 4); }, 0});
  return mc::main(argc, argv, "C23");
}
