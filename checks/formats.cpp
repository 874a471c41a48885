// Record formats: what they say as text, the sizes they give, and what players are given of records that follow them.
//   C18
#include "vrsutil.h"

#include <vrs/DataLayout.h>
#include <vrs/DataLayoutConventions.h>
#include <vrs/DataPieces.h>
#include <vrs/FileFormat.h>
#include <vrs/RecordFormat.h>
#include <vrs/RecordFormatStreamPlayer.h>

using namespace std;
using namespace vu;

namespace {

using Big = unsigned __int128;
const size_t kUnknown = ContentBlock::kSizeUnknown;

// ---------- the names, as they're found in files ----------
const char* kContentNames[] = {"custom", "empty", "data_layout", "image", "audio"};
const char* kImageNames[] = {"undefined", "raw", "jpg", "png", "video", "jxl", "custom_codec"};
const char* kPixelNames[] = {"undefined", "grey8", "bgr8", "depth32f", "rgb8", "yuv_i420_split", "rgba8", "rgb10", "rgb12", "grey10", "grey12", "grey16", "rgb32F", "scalar64F", "yuy2", "rgb_ir_4x4", "rgba32F", "bayer8_rggb", "raw10", "raw10_bayer_rggb", "raw10_bayer_bggr", "yuv_420_nv21", "yuv_420_nv12", "grey10packed", "bayer8_bggr", "bayer10_gbrg", "bayer8_gbrg"};
const char* kAudioNames[] = {"undefined", "pcm", "opus"};
const char* kSampleNames[] = {"undefined", "int8", "uint8", "uint8alaw", "uint8mulaw", "int16le", "uint16le", "int16be", "uint16be", "int24le", "uint24le", "int24be", "uint24be", "int32le", "uint32le", "int32be", "uint32be", "float32le", "float32be", "float64le", "float64be"};
const int kSampleBits[] = {0, 8, 8, 8, 8, 16, 16, 16, 16, 24, 24, 24, 24, 32, 32, 32, 32, 32, 32, 64, 64};

// ---------- specs, field by field ----------
struct Img {
  ImageFormat format{};
  PixelFormat pixel{};
  uint32_t w{}, h{}, stride{}, stride2{};
  string codec;
  uint8_t quality = 255;
  double kts = ImageContentBlockSpec::kInvalidTimestamp;
  uint32_t kidx = 0;
  bool operator==(const Img& o) const {
    return tie(format, pixel, w, h, stride, stride2, codec, quality, kts, kidx) == tie(o.format, o.pixel, o.w, o.h, o.stride, o.stride2, o.codec, o.quality, o.kts, o.kidx);
  }
};
Img fields(const ImageContentBlockSpec& s) {
  return {s.getImageFormat(), s.getPixelFormat(), s.getWidth(), s.getHeight(), s.getRawStride(), s.getRawStride2(), s.getCodecName(), s.getCodecQuality(), s.getKeyFrameTimestamp(), s.getKeyFrameIndex()};
}
struct Aud {
  AudioFormat format{};
  AudioSampleFormat sample{};
  uint32_t channels{}, stride{}, rate{}, count{}, stereo{};
  bool operator==(const Aud& o) const {
    return tie(format, sample, channels, stride, rate, count, stereo) == tie(o.format, o.sample, o.channels, o.stride, o.rate, o.count, o.stereo);
  }
};
Aud fields(const AudioContentBlockSpec& s) {
  return {s.getAudioFormat(), s.getSampleFormat(), s.getChannelCount(), s.getSampleFrameStride(), s.getSampleRate(), s.getSampleCount(), s.getStereoPairCount()};
}
string str(const Img& i) {
  return "image format " + S(int(i.format)) + " pixel " + S(int(i.pixel)) + " " + S(i.w) + "x" + S(i.h) + " strides " + S(i.stride) + "," + S(i.stride2) + " codec '" + i.codec.substr(0, 40) + "' (" + S(int64_t(i.codec.size())) + ") quality " + S(i.quality) + " key " + F(i.kts) + "," + S(i.kidx);
}
string str(const Aud& a) {
  return "audio format " + S(int(a.format)) + " sample " + S(int(a.sample)) + " channels " + S(a.channels) + " stride " + S(a.stride) + " rate " + S(a.rate) + " count " + S(a.count) + " stereo " + S(a.stereo);
}

bool sameBlock(const ContentBlock& a, const ContentBlock& b, bool text) {
  if (a.getContentType() != b.getContentType() || a.getBlockSize() != b.getBlockSize() || a.getCustomContentBlockFormat() != b.getCustomContentBlockFormat()) {
    return false;
  }
  if (a.getContentType() == ContentType::IMAGE) {
    return fields(a.image()) == fields(b.image());
  }
  if (a.getContentType() == ContentType::AUDIO) {
    Aud x = fields(a.audio()), y = fields(b.audio());
    if (text) {
      x.stereo = y.stereo = 0; // the text form has none
    }
    return x == y;
  }
  return true;
}

// converting to text and back
void roundTrip(const ContentBlock& b) {
  const string text = b.asString();
  const ContentBlock back(text);
  if (!sameBlock(b, back, true)) {
    mc::fail("a content block changes when it is converted to text and back", text.substr(0, 300) + " is read as " + back.asString().substr(0, 300) + " size " + S(int64_t(back.getBlockSize())) + (b.getContentType() == ContentType::IMAGE ? ": " + str(fields(b.image())) + " / " + str(fields(back.image())) : b.getContentType() == ContentType::AUDIO ? ": " + str(fields(b.audio())) + " / " + str(fields(back.audio())) : string()));
  }
  if (!(b == back) || b != back) {
    mc::fail("a content block doesn't compare equal once converted to text and back", text.substr(0, 300));
  }
  if (text.find('+') != string::npos) {
    mc::fail("the text of a content block has the separator of blocks", text.substr(0, 300));
  }
  mc::transition();
}
// Parsing the text that files hold for a block, given as its parts.
void parseOf(const string& text, const ContentBlock& b) {
  const ContentBlock back(text);
  if (!sameBlock(b, back, true)) {
    mc::fail("the text of a content block is not read as what it says", text.substr(0, 300) + " is read as " + back.asString().substr(0, 300));
  }
}

const vector<size_t> kSizes{kUnknown, 0, 1, 7, 4294967295u};
string sizeText(size_t size) {
  return size == kUnknown ? string() : "/size=" + S(int64_t(size));
}

string escaped(const string& s) {
  string r;
  for (char c : s) {
    if (uint8_t(c) < 32 || uint8_t(c) >= 127 || strchr("+/\\% \"'", c) != nullptr) {
      char b[4];
      snprintf(b, sizeof(b), "%%%02X", uint8_t(c));
      r += b;
    } else {
      r += c;
    }
  }
  return r;
}

const vector<uint32_t> kStrides{0, 1, 640, 4294967295u};

void images() {
  const ImageFormat format = ImageFormat(1 + mc::choose(int(ImageFormat::COUNT) - 1, "format"));
  const PixelFormat pixel = PixelFormat(mc::choose(int(PixelFormat::COUNT), "pixel"));
  const auto wh = mc::pick(vector<pair<uint32_t, uint32_t>>{{0, 0}, {1, 1}, {65535, 3}, {4294967295u, 2}, {640, 4294967295u}}, "dimensions");
  const size_t size = mc::pick(kSizes, "size");
  const bool coded = format == ImageFormat::VIDEO || format == ImageFormat::CUSTOM_CODEC;
  const bool strides = coded || format == ImageFormat::RAW;
  const string codec200(200, 'c');
  for (uint32_t stride : strides ? kStrides : vector<uint32_t>{0}) {
    for (uint32_t stride2 : strides ? kStrides : vector<uint32_t>{0}) {
      for (const string& codec : coded ? vector<string>{"", "H.264", "a b", "x/y+z%\\\"'", "%20", "\x01\xC3\xA9\xFF", codec200, codec200.substr(9), codec200.substr(6), string(70, ' '), string(3000, '+')} : vector<string>{""}) {
        for (uint8_t quality : coded ? vector<uint8_t>{255, 0, 77, 100} : vector<uint8_t>{255}) {
          for (int key = 0; key < (format == ImageFormat::VIDEO ? 5 : 1); ++key) {
            if ((stride != 0) + (stride2 != 0) + (!codec.empty()) + (quality != 255) + (key > 0) > 3) {
              continue;
            }
            const double kts[] = {ImageContentBlockSpec::kInvalidTimestamp, 0, -1.5, 123456.123456789, 1e10};
            const uint32_t kidx[] = {0, 0, 1, 4294967295u, 30};
            const ContentBlock b(ImageContentBlockSpec(format, pixel, wh.first, wh.second, stride, stride2, codec, quality, kts[key], kidx[key]), size);
            roundTrip(b);
            string t = "image" + sizeText(size) + "/" + kImageNames[int(format)];
            if (wh.first != 0) {
              t += "/" + S(wh.first) + "x" + S(wh.second);
            }
            if (pixel != PixelFormat::UNDEFINED) {
              t += string("/pixel=") + kPixelNames[int(pixel)];
            }
            if (stride != 0) {
              t += "/stride=" + S(stride);
            }
            if (stride2 != 0) {
              t += "/stride_2=" + S(stride2);
            }
            if (!codec.empty()) {
              t += "/codec=" + escaped(codec);
            }
            if (quality != 255) {
              t += "/codec_quality=" + S(quality);
            }
            if (key > 0) {
              char k[80];
              snprintf(k, sizeof(k), "/keyframe_timestamp=%.9f/keyframe_index=%u", kts[key], kidx[key]);
              t += k;
            }
            parseOf(t, b);
          }
        }
      }
    }
  }
}

void audios() {
  const AudioFormat format = AudioFormat(1 + mc::choose(int(AudioFormat::COUNT) - 1, "format"));
  const int sample = mc::choose(int(AudioSampleFormat::COUNT), "sample");
  const size_t size = mc::pick(kSizes, "size");
  for (uint32_t channels : {0u, 1u, 2u, 31u, 32u, 255u}) {
    const uint32_t frame = uint32_t(kSampleBits[sample]) / 8 * channels;
    for (uint32_t stride : {0u, frame, frame + 1, 255u}) {
      if (stride != 0 && (stride < frame || stride > 255)) {
        continue;
      }
      for (uint32_t rate : {0u, 1u, 48000u, 4294967295u}) {
        for (uint32_t count : {0u, 1u, 1000u, 4294967295u}) {
          for (uint32_t stereo : {0u, channels / 2}) {
            const AudioContentBlockSpec spec(format, AudioSampleFormat(sample), uint8_t(channels), uint8_t(stride), rate, count, uint8_t(stereo));
            const ContentBlock b(spec, size);
            roundTrip(b);
            string t = "audio" + sizeText(size) + "/" + kAudioNames[int(format)];
            if (sample != 0) {
              t += string("/") + kSampleNames[sample];
            }
            if (channels != 0) {
              t += "/channels=" + S(channels);
            }
            if (rate != 0) {
              t += "/rate=" + S(rate);
            }
            if (count != 0) {
              t += "/samples=" + S(count);
            }
            if (stride != 0 && stride != frame) {
              t += "/stride=" + S(stride);
            }
            parseOf(t, b);
            // sizes
            const Big exact = Big(stride != 0 ? stride : frame) * count;
            const size_t want = size != kUnknown ? size : format != AudioFormat::PCM || exact == 0 ? kUnknown : size_t(exact);
            if (b.getBlockSize() != want && !(stride == 0 && frame > 255 && b.getBlockSize() == kUnknown)) {
              mc::fail("an audio block has another size than its samples", t + ": " + S(int64_t(b.getBlockSize())) + ", expected " + S(int64_t(want)));
            }
          }
        }
      }
    }
  }
}

void others() {
  const size_t size = mc::pick(kSizes, "size");
  roundTrip(ContentBlock(ContentType::EMPTY));
  roundTrip(ContentBlock(ContentType::DATA_LAYOUT, size));
  roundTrip(ContentBlock(ContentType::IMAGE, size));
  roundTrip(ContentBlock(ContentType::AUDIO, size));
  roundTrip(CustomContentBlock(size));
  parseOf("data_layout" + sizeText(size), ContentBlock(ContentType::DATA_LAYOUT, size));
  parseOf("custom" + sizeText(size), CustomContentBlock(size));
  for (int c = 0; c < 256; ++c) {
    for (const string& name : {string(1, char(c)), string("x") + char(c), string(1, char(c)) + "y" + char(c)}) {
      const CustomContentBlock b(name, size);
      roundTrip(b);
      if (isalnum(c) || (c != 0 && strchr("_-*.,;:!@~#&|[]{}'", c) != nullptr)) {
        mc::check(b.getCustomContentBlockFormat() == name, "the name of a custom format changed", name);
        parseOf("custom" + sizeText(size) + "/format=" + name, b);
      }
    }
  }
  for (size_t n : {1u, 199u, 200u, 5000u}) {
    roundTrip(CustomContentBlock(string(n, 'n'), size));
  }
}

void names() {
  auto all = [](auto last, const char* const* t, size_t n, const char* what) {
    using E = decltype(last);
    mc::check(size_t(last) == n, "the number of names", what);
    for (size_t k = 0; k < n; ++k) {
      mc::check(toString(E(k)) == t[k] && toEnum<E>(t[k]) == E(k), "a name found in files changed", string(what) + " " + t[k] + ": " + toString(E(k)));
      for (size_t j = 0; j < n; ++j) {
        mc::check(j == k || string(t[j]) != t[k], "names");
      }
      mc::transition();
    }
    // what no type has
    for (const char* text : {"", "x", "raw ", " raw", "greyy8", "pcm1"}) {
      mc::check(size_t(toEnum<E>(text)) == 0, "a name that is none's is taken for a type", string(what) + " '" + text + "'");
    }
  };
  all(ContentType::COUNT, kContentNames, size(kContentNames), "content type");
  all(ImageFormat::COUNT, kImageNames, size(kImageNames), "image format");
  all(PixelFormat::COUNT, kPixelNames, size(kPixelNames), "pixel format");
  all(AudioFormat::COUNT, kAudioNames, size(kAudioNames), "audio format");
  all(AudioSampleFormat::COUNT, kSampleNames, size(kSampleNames), "sample format");
}

// ---------- record formats ----------
const vector<ContentBlock>& catalogue() {
  static const vector<ContentBlock> v = [] {
    vector<ContentBlock> r{
        ContentBlock(ContentType::EMPTY),
        ContentBlock(ContentType::DATA_LAYOUT),
        ContentBlock(ContentType::DATA_LAYOUT, 5),
        CustomContentBlock(),
        CustomContentBlock(3),
        CustomContentBlock(size_t(0)),
        CustomContentBlock("a", 3),
        CustomContentBlock("b", 3),
        CustomContentBlock("a"),
        CustomContentBlock("b"),
        ContentBlock(ContentType::IMAGE),
        ContentBlock(ImageFormat::RAW),
        ContentBlock(ImageFormat::JPG),
        ContentBlock(ImageFormat::JPG, 3, 4),
        ContentBlock(ImageContentBlockSpec(ImageFormat::PNG), 4),
        ContentBlock(PixelFormat::GREY8, 3, 2),
        ContentBlock(PixelFormat::GREY8, 3, 2, 4),
        ContentBlock(PixelFormat::BAYER8_BGGR, 3, 2),
        ContentBlock(PixelFormat::YUV_I420_SPLIT, 3, 3),
        ContentBlock(PixelFormat::YUV_I420_SPLIT, 3, 3, 0, 5),
        ContentBlock("H.264", 255, PixelFormat::RGB8, 4, 4),
        ContentBlock("H.264", 90, PixelFormat::RGB8, 4, 4),
        ContentBlock("H.265", 255, PixelFormat::RGB8, 4, 4),
        ContentBlock("+/ %", 255),
        ContentBlock(ImageContentBlockSpec(ImageFormat::CUSTOM_CODEC, "H.264")),
        ContentBlock(ContentBlock("H.264", 255, PixelFormat::RGB8, 4, 4), 1.5, 2),
        ContentBlock(ContentBlock("H.264", 255, PixelFormat::RGB8, 4, 4), 1.5, 3),
        ContentBlock(ContentBlock("H.264", 255, PixelFormat::RGB8, 4, 4), 2.5, 2),
        ContentBlock(ContentType::AUDIO),
        ContentBlock(AudioFormat::OPUS, 2),
        ContentBlock(AudioFormat::PCM, AudioSampleFormat::S16_LE, 2, 0, 8000, 0),
        ContentBlock(AudioFormat::PCM, AudioSampleFormat::S16_LE, 2, 0, 8000, 2),
        ContentBlock(AudioFormat::PCM, AudioSampleFormat::S16_LE, 2, 6, 8000, 2),
        ContentBlock(AudioFormat::PCM, AudioSampleFormat::S16_BE, 2, 0, 8000, 2),
        ContentBlock(AudioFormat::PCM, AudioSampleFormat::S16_LE, 2, 0, 8001, 2),
        ContentBlock(AudioFormat::PCM, AudioSampleFormat::S16_LE, 1, 4, 8000, 2),
    };
    return r;
  }();
  return v;
}
// worked out by hand
size_t sizeOf(int k) {
  static const map<int, size_t> known{{0, 0}, {2, 5}, {4, 3}, {5, 0}, {6, 3}, {7, 3}, {14, 4}, {15, 6}, {16, 8}, {17, 6}, {18, 17}, {19, 29}, {31, 8}, {32, 12}, {33, 8}, {34, 8}, {35, 8}};
  auto f = known.find(k);
  return f == known.end() ? kUnknown : f->second;
}

void blocks() {
  const auto& c = catalogue();
  for (size_t a = 0; a < c.size(); ++a) {
    mc::check(c[a].getBlockSize() == sizeOf(int(a)), "the size of a block is not that of its content", c[a].asString() + ": " + S(int64_t(c[a].getBlockSize())));
    for (size_t b = 0; b < c.size(); ++b) {
      mc::transition();
      if ((c[a] == c[b]) != (a == b) || (c[a] != c[b]) != (a != b)) {
        mc::fail(a == b ? "a content block isn't equal to itself" : "different content blocks compare equal", c[a].asString() + " and " + c[b].asString());
      }
      const RecordFormat f = c[a] + c[b], g(c[a], c[b]);
      mc::check(f == g, "adding blocks");
    }
  }
}

void formats() {
  const auto& c = catalogue();
  const int n = mc::choose(4, "blocks");
  vector<int> k;
  for (int i = 0; i < n && i < 2; ++i) {
    k.push_back(mc::choose(int(c.size()), "block"));
  }
  const int lasts = n == 3 ? int(c.size()) : 1;
  for (int last = 0; last < lasts; ++last) {
    vector<int> b = k;
    if (n == 3) {
      b.push_back(last);
    }
    RecordFormat f;
    for (int i : b) {
      f + c[size_t(i)];
    }
    const string text = f.asString();
    const RecordFormat back(text);
    auto fail = [&](const char* what, const string& more = {}) { mc::fail(what, text + " " + more); };
    if (!(back == f) || back != f || !(f == back)) {
      fail("a record format changes when it is converted to text and back", back.asString());
    }
    size_t used = b.size();
    while (used > 0 && b[used - 1] == 0) {
      --used;
    }
    if (f.getUsedBlocksCount() != used || back.getUsedBlocksCount() != used) {
      fail("the number of blocks used is wrong", S(int64_t(f.getUsedBlocksCount())) + " " + S(int64_t(back.getUsedBlocksCount())));
    }
    map<ContentType, size_t> count;
    for (size_t i = 0; i < b.size(); ++i) {
      const ContentBlock& x = c[size_t(b[i])];
      if (!sameBlock(back.getContentBlock(i), x, true) || !(f.getContentBlock(i) == x)) {
        fail("a block of a record format changed", S(int64_t(i)));
      }
      ++count[x.getContentType()];
    }
    mc::check(f.getContentBlock(b.size()).getContentType() == ContentType::EMPTY, "a block after the last one");
    for (int t = 0; t < int(ContentType::COUNT); ++t) {
      if (f.getBlocksOfTypeCount(ContentType(t)) != count[ContentType(t)]) {
        fail("the number of blocks of a type is wrong");
      }
    }
    auto rest = [&](size_t first) {
      size_t s = 0;
      for (size_t i = first; i < b.size(); ++i) {
        if (sizeOf(b[i]) == kUnknown) {
          return kUnknown;
        }
        s += sizeOf(b[i]);
      }
      return s;
    };
    if (f.getRecordSize() != rest(0)) {
      fail("the size of a record is not the sum of its blocks", S(int64_t(f.getRecordSize())));
    }
    for (size_t i = 0; i < b.size(); ++i) {
      if (f.getRemainingBlocksSize(i) != rest(i)) {
        fail("the size of the last blocks is not their sum");
      }
      for (size_t left = 0; left <= 40; ++left) {
        size_t want = sizeOf(b[i]);
        if (want != kUnknown) {
          want = want <= left ? want : kUnknown;
        } else if (rest(i + 1) != kUnknown && rest(i + 1) <= left) {
          want = left - rest(i + 1);
        }
        if (f.getBlockSize(i, left) != want) {
          fail("the size of a block in a record is wrong", "block " + S(int64_t(i)) + " with " + S(int64_t(left)) + " bytes left: " + S(int64_t(f.getBlockSize(i, left))) + ", expected " + S(int64_t(want)));
        }
      }
    }
    // another last block makes another format
    if (!b.empty()) {
      for (size_t other = 0; other < c.size(); ++other) {
        RecordFormat g;
        for (size_t i = 0; i + 1 < b.size(); ++i) {
          g + c[size_t(b[i])];
        }
        g + c[other];
        if ((f == g) != (int(other) == b.back())) {
          fail("record formats that differ by a block compare equal, or equal ones different", g.asString());
        }
      }
    }
    mc::transition();
  }
}

// ---------- tag names ----------
void tagNames() {
  const Type type = mc::pick(vector<Type>{Type::DATA, Type::CONFIGURATION, Type::STATE}, "type");
  const char* typeName = type == Type::DATA ? "Data" : type == Type::STATE ? "State" : "Configuration";
  for (uint32_t version : {0u, 1u, 9u, 10u, 65535u, 65536u, 2147483647u, 2147483648u, 4294967295u}) {
    const string name = RecordFormat::getRecordFormatTagName(type, version);
    mc::check(name == string("RF:") + typeName + ":" + S(version), "the name of a record format's tag changed", name);
    for (size_t block : {size_t(0), size_t(1), size_t(12)}) {
      const string l = RecordFormat::getDataLayoutTagName(type, version, block);
      mc::check(l == string("DL:") + typeName + ":" + S(version) + ":" + S(int64_t(block)), "the name of a layout's tag changed", l);
    }
    Type t{};
    uint32_t v = 0;
    mc::check(RecordFormat::parseRecordFormatTagName(name, t, v) && t == type && v == version, "the name of a record format's tag is not read back", name);
    for (size_t cut = 0; cut < name.size(); ++cut) {
      const string part = name.substr(0, cut);
      unique_ptr<char[]> exact(new char[cut + 1]);
      memcpy(exact.get(), part.c_str(), cut + 1);
      const bool isName = part.size() > 4 + strlen(typeName);
      if (RecordFormat::parseRecordFormatTagName(exact.get(), t, v) != isName) {
        mc::fail("the name of a record format's tag is not told from other names", part);
      }
    }
    for (const char* more : {"x", " ", ":", ":0", "-", "+"}) {
      if (RecordFormat::parseRecordFormatTagName(name + more, t, v)) {
        mc::fail("the name of a record format's tag is not told from other names", name + more);
      }
    }
    for (const string& other : {"rf:" + name.substr(3), "DL:" + name.substr(3), " " + name, "RF:" + name, string("RF:Tags:1"), string("RF::1"), string("RF:") + typeName, string("RF:") + typeName + ":", string("RF:") + typeName + ":x", string("RF:") + typeName + ":x1"}) {
      if (RecordFormat::parseRecordFormatTagName(other, t, v)) {
        mc::fail("the name of a record format's tag is not told from other names", other);
      }
    }
    mc::transition();
  }
}

// ---------- any text ----------
void texts(const vector<string>& alphabet, int max) {
  const int first = mc::choose(int(alphabet.size()), "first");
  const int second = mc::choose(int(alphabet.size()) + 1, "second");
  string t = alphabet[size_t(first)];
  function<void(int)> rec = [&](int left) {
    const RecordFormat f(t);
    const string text = f.asString();
    const RecordFormat g(text);
    if (g.asString() != text) {
      mc::fail("a text is read as a format whose own text is read otherwise", t + " gives " + text + " which gives " + g.asString());
    }
    f.getRecordSize();
    mc::transition();
    if (left > 0) {
      const size_t n = t.size();
      for (const string& a : alphabet) {
        t += a;
        rec(left - 1);
        t.resize(n);
      }
    }
  };
  if (second < int(alphabet.size())) {
    t += alphabet[size_t(second)];
    rec(max - 2);
  } else {
    rec(0);
  }
}

// ---------- sizes of images ----------
struct Shape {
  Big line, lines, line2, lines2;
  int planes;
};
Shape shape(PixelFormat p, Big w, Big h) {
  switch (p) {
    case PixelFormat::GREY8:
    case PixelFormat::RGB_IR_RAW_4X4:
    case PixelFormat::BAYER8_RGGB:
    case PixelFormat::BAYER8_BGGR:
    case PixelFormat::BAYER8_GBRG:
      return {w, h, 0, 0, 1};
    case PixelFormat::GREY10:
    case PixelFormat::GREY12:
    case PixelFormat::GREY16:
    case PixelFormat::BAYER10_GBRG:
      return {2 * w, h, 0, 0, 1};
    case PixelFormat::RGB8:
    case PixelFormat::BGR8:
      return {3 * w, h, 0, 0, 1};
    case PixelFormat::DEPTH32F:
    case PixelFormat::RGBA8:
      return {4 * w, h, 0, 0, 1};
    case PixelFormat::RGB10:
    case PixelFormat::RGB12:
      return {6 * w, h, 0, 0, 1};
    case PixelFormat::SCALAR64F:
      return {8 * w, h, 0, 0, 1};
    case PixelFormat::RGB32F:
      return {12 * w, h, 0, 0, 1};
    case PixelFormat::RGBA32F:
      return {16 * w, h, 0, 0, 1};
    case PixelFormat::RAW10:
    case PixelFormat::RAW10_BAYER_RGGB:
    case PixelFormat::RAW10_BAYER_BGGR:
    case PixelFormat::GREY10PACKED:
      return {(w + 3) / 4 * 5, h, 0, 0, 1};
    case PixelFormat::YUY2:
      return {(w + 1) / 2 * 4, h, 0, 0, 1};
    case PixelFormat::YUV_I420_SPLIT:
      return {w, h, (w + 1) / 2, (h + 1) / 2, 3};
    case PixelFormat::YUV_420_NV21:
    case PixelFormat::YUV_420_NV12:
      return {w, h, (w + 1) / 2 * 2, (h + 1) / 2, 2};
    default:
      return {0, 0, 0, 0, 0};
  }
}
string B(Big v) {
  return v >> 64 ? "over 2^64" : to_string(uint64_t(v));
}
void imageSizes() {
  const PixelFormat p = PixelFormat(1 + mc::choose(int(PixelFormat::COUNT) - 1, "pixel"));
  vector<uint32_t> dims;
  for (uint32_t i = 1; i <= 17; ++i) {
    dims.push_back(i);
  }
  for (uint32_t i : {640u, 65535u, 65536u, 65537u, 268435456u, 268435457u, 357913942u, 1431655766u, 2147483647u, 2147483648u, 4294967294u, 4294967295u}) {
    dims.push_back(i);
  }
  const Big k32 = Big(1) << 32;
  for (uint32_t w : dims) {
    for (uint32_t h : dims) {
      const Shape s = shape(p, w, h);
      mc::check(s.planes > 0, "a pixel format without a shape");
      for (Big stride : {Big(0), s.line, s.line + 1, s.line + 64, k32 - 1}) {
        for (Big stride2 : {Big(0), s.line2, s.line2 + 3, k32 - 1}) {
          if ((stride != 0 && (stride < s.line || stride >= k32)) || (stride2 != 0 && (stride2 < s.line2 || stride2 >= k32)) || (s.planes == 1 && stride2 != 0)) {
            continue;
          }
          const Big line = stride != 0 ? stride : s.line, line2 = stride2 != 0 ? stride2 : s.line2;
          const Big exact = line * s.lines + line2 * s.lines2 * Big(s.planes - 1);
          const ImageContentBlockSpec spec(p, w, h, uint32_t(stride), uint32_t(stride2));
          const size_t got = spec.getRawImageSize();
          const bool fits = (exact >> 64) == 0 && line < k32 && line2 < k32;
          auto what = [&]() { return string(kPixelNames[int(p)]) + " " + S(w) + "x" + S(h) + " strides " + B(stride) + "," + B(stride2); };
          if (fits ? got != size_t(exact) : got != kUnknown && got != size_t(exact)) {
            mc::fail("the size of a raw image is not that of its planes", what() + ": " + to_string(got) + ", expected " + B(exact));
          }
          mc::check(spec.getBlockSize() == got, "the size of the block of a raw image");
          if (fits) {
            bool ok = spec.getPlaneCount() == uint32_t(s.planes) && spec.getStride() == line && spec.getPlaneStride(0) == line && spec.getPlaneHeight(0) == h;
            for (uint32_t i = 1; i < uint32_t(s.planes); ++i) {
              ok = ok && spec.getPlaneStride(i) == line2 && spec.getPlaneHeight(i) == s.lines2;
            }
            ok = ok && spec.getPlaneStride(uint32_t(s.planes)) == 0 && spec.getPlaneHeight(uint32_t(s.planes)) == 0;
            ok = ok && spec.getDefaultStride() == (s.line < k32 ? s.line : Big(spec.getDefaultStride())) && spec.getDefaultStride2() == s.line2;
            if (!ok) {
              mc::fail("the planes of an image are not those of its format", what());
            }
          }
          for (ImageFormat f : {ImageFormat::JPG, ImageFormat::PNG, ImageFormat::VIDEO, ImageFormat::JXL, ImageFormat::CUSTOM_CODEC}) {
            const ImageContentBlockSpec coded(f, p, w, h);
            mc::check(coded.getBlockSize() == kUnknown, "the size of a compressed image is taken for known");
          }
          mc::transition();
        }
      }
    }
  }
}

// ---------- reading ----------
using namespace datalayout_conventions;

// The layouts, with the bytes that hold their values: pieces of fixed size, one after the other.
struct L0 : public AutoDataLayout {
  DataPieceValue<uint32_t> a{"a"};
  AutoDataLayoutEnd end;
};
struct LVar : public AutoDataLayout {
  DataPieceVector<uint8_t> v{"v"};
  AutoDataLayoutEnd end;
};
struct LNext : public AutoDataLayout {
  DataPieceValue<uint32_t> size{kNextContentBlockSize};
  AutoDataLayoutEnd end;
};
struct LImage : public AutoDataLayout {
  DataPieceValue<uint32_t> w{kImageWidth};
  DataPieceValue<uint32_t> h{kImageHeight};
  DataPieceEnum<PixelFormat, uint32_t> pixel{kImagePixelFormat};
  AutoDataLayoutEnd end;
};
// as LImage, in another order, with more
struct LImage2 : public AutoDataLayout {
  DataPieceValue<uint32_t> stride{kImageStride};
  DataPieceEnum<PixelFormat, uint32_t> pixel{kImagePixelFormat};
  DataPieceValue<uint32_t> h{kImageHeight};
  DataPieceValue<uint32_t> w{kImageWidth};
  DataPieceValue<uint32_t> stride2{kImageStride2};
  AutoDataLayoutEnd end;
};
struct LCodec : public AutoDataLayout {
  DataPieceValue<uint32_t> size{kNextContentBlockSize};
  DataPieceValue<uint32_t> quality{kImageCodecQuality};
  DataPieceString codec{kImageCodecName};
  AutoDataLayoutEnd end;
};
struct LAudio : public AutoDataLayout {
  DataPieceEnum<AudioFormat, uint8_t> format{kAudioFormat};
  DataPieceEnum<AudioSampleFormat, uint8_t> sample{kAudioSampleFormat};
  DataPieceValue<uint8_t> channels{kAudioChannelCount};
  DataPieceValue<uint8_t> stereo{kAudioStereoPairCount};
  DataPieceValue<uint32_t> rate{kAudioSampleRate};
  AutoDataLayoutEnd end;
};
struct LCount : public AutoDataLayout {
  DataPieceValue<uint32_t> count{kAudioSampleCount};
  AutoDataLayoutEnd end;
};
struct LKey : public AutoDataLayout {
  DataPieceValue<double> kts{kImageKeyFrameTimeStamp};
  DataPieceValue<uint32_t> kidx{kImageKeyFrameIndex};
  AutoDataLayoutEnd end;
};
// of configuration records
struct LConfig : public AutoDataLayout {
  DataPieceValue<uint32_t> w{kImageWidth};
  DataPieceValue<uint32_t> h{kImageHeight};
  DataPieceEnum<PixelFormat, uint32_t> pixel{kImagePixelFormat};
  DataPieceEnum<AudioFormat, uint8_t> format{kAudioFormat};
  DataPieceEnum<AudioSampleFormat, uint8_t> sample{kAudioSampleFormat};
  DataPieceValue<uint8_t> channels{kAudioChannelCount};
  DataPieceValue<uint8_t> stereo{kAudioStereoPairCount};
  DataPieceValue<uint32_t> rate{kAudioSampleRate};
  AutoDataLayoutEnd end;
};

// What a layout says about blocks that follow.
struct Said {
  bool isLayout = false;
  bool hasNext = false;
  uint32_t next = 0;
  uint32_t count = 0; // of samples
  // image
  uint32_t w = 0, h = 0, stride = 0, stride2 = 0;
  PixelFormat pixel{};
  string codec;
  uint32_t quality = 255;
  bool hasKey = false;
  double kts = 0;
  uint32_t kidx = 0;
  // audio
  bool hasAudio = false;
  AudioFormat aformat = AudioFormat::PCM;
  AudioSampleFormat sample{};
  uint32_t channels = 0, rate = 0, stereo = 0;
};
struct Part {
  vector<uint8_t> bytes;
  Said said;
};
void put(vector<uint8_t>& v, const void* p, size_t n) {
  v.insert(v.end(), static_cast<const uint8_t*>(p), static_cast<const uint8_t*>(p) + n);
}
void put32(vector<uint8_t>& v, uint32_t x) {
  put(v, &x, 4);
}

enum Kind { kL0, kLVar, kLNext, kLImage, kLImage2, kLCodec, kLAudio, kLCount, kLKey, kLConfig, kBlock };

// The contents tried for a layout. next: the size of the block that follows
vector<Part> partsOf(Kind k, uint32_t next, bool all) {
  vector<Part> r;
  auto add = [&](vector<uint8_t> b, Said s) {
    s.isLayout = true;
    r.push_back({std::move(b), s});
  };
  vector<uint8_t> b;
  Said s;
  switch (k) {
    case kL0:
      put32(b, 77);
      add(b, s);
      break;
    case kLVar:
      for (uint32_t n : {3u, 0u}) {
        b.clear();
        put32(b, 0);
        put32(b, n);
        b.insert(b.end(), n, 9);
        add(b, s);
      }
      break;
    case kLNext:
      for (uint32_t n : {next, next + 1}) {
        b.clear();
        put32(b, n);
        s.hasNext = true;
        s.next = n;
        add(b, s);
      }
      break;
    case kLImage:
      for (auto& v : vector<tuple<uint32_t, uint32_t, PixelFormat>>{{2, 2, PixelFormat::GREY8}, {0, 2, PixelFormat::GREY8}, {1, 2, PixelFormat::YUV_420_NV12}, {2, 2, PixelFormat::COUNT}, {2, 2, PixelFormat::UNDEFINED}}) {
        b.clear();
        tie(s.w, s.h, s.pixel) = v;
        put32(b, s.w);
        put32(b, s.h);
        put32(b, uint32_t(s.pixel));
        add(b, s);
      }
      break;
    case kLImage2:
      for (auto& v : vector<tuple<uint32_t, uint32_t, PixelFormat, uint32_t, uint32_t>>{{1, 2, PixelFormat::GREY8, 2, 0}, {1, 2, PixelFormat::YUV_420_NV12, 0, 3}, {1, 0, PixelFormat::GREY8, 0, 0}}) {
        b.clear();
        tie(s.w, s.h, s.pixel, s.stride, s.stride2) = v;
        for (uint32_t x : {s.stride, uint32_t(s.pixel), s.h, s.w, s.stride2}) {
          put32(b, x);
        }
        add(b, s);
      }
      break;
    case kLCodec:
      for (const char* codec : {"xy", ""}) {
        b.clear();
        s.hasNext = true;
        s.next = next;
        s.quality = codec[0] != 0 ? 50 : 101;
        s.codec = codec;
        put32(b, next);
        put32(b, s.quality);
        put32(b, 0);
        put32(b, uint32_t(s.codec.size()));
        b.insert(b.end(), s.codec.begin(), s.codec.end());
        add(b, s);
      }
      break;
    case kLAudio:
      for (auto& v : vector<tuple<AudioFormat, AudioSampleFormat, uint32_t, uint32_t, uint32_t>>{{AudioFormat::PCM, AudioSampleFormat::S16_LE, 2, 8000, 1}, {AudioFormat::PCM, AudioSampleFormat::S24_BE, 1, 44100, 0}, {AudioFormat::OPUS, AudioSampleFormat::F32_LE, 1, 44100, 0}, {AudioFormat::PCM, AudioSampleFormat::UNDEFINED, 1, 44100, 0}, {AudioFormat::PCM, AudioSampleFormat::S16_LE, 0, 44100, 0}, {AudioFormat::PCM, AudioSampleFormat::S16_LE, 1, 0, 0}}) {
        b.clear();
        tie(s.aformat, s.sample, s.channels, s.rate, s.stereo) = v;
        s.hasAudio = true;
        for (uint32_t x : {uint32_t(s.aformat), uint32_t(s.sample), s.channels, s.stereo}) {
          b.push_back(uint8_t(x));
        }
        put32(b, s.rate);
        add(b, s);
      }
      break;
    case kLCount:
      for (uint32_t n : {1u, 2u, 0u}) {
        b.clear();
        put32(b, n);
        s.count = n;
        add(b, s);
      }
      break;
    case kLKey:
      for (uint32_t n : {0u, 3u}) {
        b.clear();
        s.hasKey = true;
        s.kts = 1.5;
        s.kidx = n;
        put(b, &s.kts, 8);
        put32(b, n);
        add(b, s);
      }
      break;
    case kLConfig:
      for (int n = 0; n < 3; ++n) {
        b.clear();
        s.w = n == 0 ? 2 : n == 1 ? 1 : 0;
        s.h = 1 + uint32_t(n);
        s.pixel = n == 1 ? PixelFormat::GREY16 : PixelFormat::GREY8;
        s.aformat = AudioFormat::PCM;
        s.sample = n == 0 ? AudioSampleFormat::S16_LE : n == 1 ? AudioSampleFormat::U8 : AudioSampleFormat::UNDEFINED;
        s.channels = 1 + uint32_t(n);
        s.stereo = uint32_t(n) / 2;
        s.rate = 8000;
        s.hasAudio = true;
        put32(b, s.w);
        put32(b, s.h);
        put32(b, uint32_t(s.pixel));
        for (uint32_t x : {uint32_t(s.aformat), uint32_t(s.sample), s.channels, s.stereo}) {
          b.push_back(uint8_t(x));
        }
        put32(b, s.rate);
        add(b, s);
      }
      break;
    default:
      break;
  }
  if (!all && r.size() > 2) {
    r.resize(2);
  }
  return r;
}
shared_ptr<DataLayout> layoutOf(Kind k) {
  switch (k) {
    case kL0:
      return make_shared<L0>();
    case kLVar:
      return make_shared<LVar>();
    case kLNext:
      return make_shared<LNext>();
    case kLImage:
      return make_shared<LImage>();
    case kLImage2:
      return make_shared<LImage2>();
    case kLCodec:
      return make_shared<LCodec>();
    case kLAudio:
      return make_shared<LAudio>();
    case kLCount:
      return make_shared<LCount>();
    case kLKey:
      return make_shared<LKey>();
    case kLConfig:
      return make_shared<LConfig>();
    default:
      return nullptr;
  }
}

struct Item {
  const char* name;
  Kind kind;
  ContentBlock block;
};
const vector<Item>& items() {
  static const vector<Item> v{
      {"layout", kL0, ContentType::DATA_LAYOUT},
      {"layout(var)", kLVar, ContentType::DATA_LAYOUT},
      {"layout(next size)", kLNext, ContentType::DATA_LAYOUT},
      {"custom", kBlock, CustomContentBlock()},
      {"custom/3", kBlock, CustomContentBlock("f", 3)},
      {"image/jpg", kBlock, ContentBlock(ImageFormat::JPG)},
      {"image/raw/2x2", kBlock, ContentBlock(PixelFormat::GREY8, 2, 2)},
      {"image/raw", kBlock, ContentBlock(ImageFormat::RAW)},
      {"audio", kBlock, ContentBlock(ContentType::AUDIO)},
      {"layout(image)", kLImage, ContentType::DATA_LAYOUT},
      {"layout(audio)", kLAudio, ContentType::DATA_LAYOUT},
      {"audio/pcm", kBlock, ContentBlock(AudioContentBlockSpec(AudioFormat::PCM, AudioSampleFormat::U16_BE, 2, 5, 4000, 0), kUnknown)},
      {"audio/pcm/2", kBlock, ContentBlock(AudioContentBlockSpec(AudioFormat::PCM, AudioSampleFormat::S8, 2, 0, 4000, 2), kUnknown)},
      {"layout(count)", kLCount, ContentType::DATA_LAYOUT},
      {"layout(codec)", kLCodec, ContentType::DATA_LAYOUT},
      {"image/video", kBlock, ContentBlock("base", 70)},
      {"image/custom_codec", kBlock, ContentBlock(ImageContentBlockSpec(ImageFormat::CUSTOM_CODEC, "base", 70))},
      {"layout(key)", kLKey, ContentType::DATA_LAYOUT},
      {"image/png/4", kBlock, ContentBlock(ImageContentBlockSpec(ImageFormat::PNG, 3, 3), 4)},
      {"layout(image2)", kLImage2, ContentType::DATA_LAYOUT},
      {"empty", kBlock, ContentBlock(ContentType::EMPTY)},
      {"image/raw/sized 4", kBlock, ContentBlock(ImageContentBlockSpec(ImageFormat::RAW), 4)},
  };
  return v;
}

// What the player is given.
struct Ev {
  char kind = 0; // Layout, Image, Audio, Custom, Unsupported
  size_t index = 0;
  size_t size = 0;
  Img img;
  Aud aud;
  string custom;
  vector<uint8_t> bytes;
  bool whole = true; // all the bytes could be read
  bool operator==(const Ev& o) const {
    return kind == o.kind && index == o.index && (kind == 'U' || (size == o.size && img == o.img && aud == o.aud && custom == o.custom && bytes == o.bytes && whole == o.whole));
  }
};
string str(const Ev& e) {
  string b;
  for (uint8_t x : e.bytes) {
    b += " " + S(x);
  }
  return string(1, e.kind) + "#" + S(int64_t(e.index)) + (e.kind == 'U' ? string() : " size " + S(int64_t(e.size)) + (e.kind == 'I' ? " " + str(e.img) : e.kind == 'A' ? " " + str(e.aud) : " " + e.custom) + " bytes" + b + (e.whole ? "" : " (and no more)"));
}
string str(const vector<Ev>& v) {
  string r;
  for (auto& e : v) {
    r += " [" + str(e) + "]";
  }
  return r;
}

struct Player : public RecordFormatStreamPlayer {
  vector<Ev> evs;
  bool started = false;
  bool onDataLayoutRead(const CurrentRecord&, size_t index, DataLayout& layout) override {
    Ev e;
    e.kind = 'L';
    e.index = index;
    for (auto* v : {&layout.getFixedData(), &layout.getVarData()}) {
      e.bytes.insert(e.bytes.end(), v->begin(), v->end());
    }
    e.size = e.bytes.size();
    evs.push_back(std::move(e));
    return true;
  }
  bool take(const CurrentRecord& r, char kind, size_t index, const ContentBlock& b) {
    Ev e;
    e.kind = kind;
    e.index = index;
    e.size = b.getBlockSize();
    if (kind == 'I') {
      e.img = fields(b.image());
    } else if (kind == 'A') {
      e.aud = fields(b.audio());
    } else {
      e.custom = b.getCustomContentBlockFormat();
    }
    if (e.size == kUnknown) {
      e.whole = false;
    } else {
      const size_t left = r.reader->getUnreadBytes();
      e.bytes.assign(min(left, e.size), 0xEE);
      e.whole = e.size <= left;
      if (!e.bytes.empty() && r.reader->read(e.bytes.data(), e.bytes.size()) != 0) {
        e.whole = false;
        e.bytes.clear();
      }
    }
    const bool more = e.whole;
    evs.push_back(std::move(e));
    return more;
  }
  bool onImageRead(const CurrentRecord& r, size_t index, const ContentBlock& b) override {
    return take(r, 'I', index, b);
  }
  bool onAudioRead(const CurrentRecord& r, size_t index, const ContentBlock& b) override {
    return take(r, 'A', index, b);
  }
  bool onCustomBlockRead(const CurrentRecord& r, size_t index, const ContentBlock& b) override {
    return take(r, 'C', index, b);
  }
  bool onUnsupportedBlock(const CurrentRecord& r, size_t index, const ContentBlock& b) override {
    Ev e;
    e.kind = 'U';
    e.index = index;
    evs.push_back(std::move(e));
    return RecordFormatStreamPlayer::onUnsupportedBlock(r, index, b);
  }
};

// Which blocks are given, of a record with these parts, whose bytes are `bytes`, cut or extended maybe.
vector<Ev> expected(const vector<const Item*>& format, const vector<Part>& parts, const vector<uint8_t>& bytes, const Said* config, bool& judged) {
  vector<Ev> r;
  judged = true;
  size_t begin = 0; // of the block, when the sizes of those before were as written
  size_t pos = 0;
  size_t used = format.size();
  while (used > 0 && format[used - 1]->block.getContentType() == ContentType::EMPTY) {
    --used;
  }
  // the size that a block has by its own description
  auto own = [&](size_t i) { return format[i]->block.getBlockSize(); };
  for (size_t i = 0; i < used; ++i) {
    const Item& it = *format[i];
    const size_t left = bytes.size() - pos;
    if (i > 0) {
      begin += parts[i - 1].bytes.size();
    }
    Ev e;
    e.index = i;
    auto give = [&](char kind, size_t size) {
      e.kind = kind;
      e.size = size;
      e.whole = size <= left;
      e.bytes.assign(bytes.begin() + ptrdiff_t(pos), bytes.begin() + ptrdiff_t(pos + min(left, size)));
      pos += e.bytes.size();
      r.push_back(e);
      return e.whole;
    };
    auto unsupported = [&]() {
      e.kind = 'U';
      r.push_back(e);
      if (own(i) != kUnknown && own(i) <= left) {
        pos += own(i);
        return true;
      }
      return false;
    };
    if (it.kind != kBlock) {
      if (begin != pos) {
        judged = false; // (it reads bytes that weren't written for it)
        return r;
      }
      if (parts[i].bytes.size() > left) {
        return r;
      }
      give('L', parts[i].bytes.size());
      continue;
    }
    if (it.block.getContentType() == ContentType::EMPTY) {
      continue;
    }
    const Said* before = i > 0 && parts[i - 1].said.isLayout ? &parts[i - 1].said : nullptr;
    size_t size = kUnknown;
    if (before != nullptr && before->hasNext) {
      size = before->next;
    } else if (own(i) != kUnknown) {
      size = own(i) <= left ? own(i) : kUnknown;
    } else {
      size_t rest = 0;
      for (size_t k = i + 1; k < format.size(); ++k) {
        rest = rest == kUnknown || own(k) == kUnknown ? kUnknown : rest + own(k);
      }
      if (rest != kUnknown && rest <= left) {
        size = left - rest;
      }
    }
    bool more = false;
    if (it.block.getContentType() == ContentType::CUSTOM) {
      e.custom = it.block.getCustomContentBlockFormat();
      more = own(i) != kUnknown ? give('C', own(i)) : size != kUnknown ? give('C', size) : unsupported();
    } else if (it.block.getContentType() == ContentType::IMAGE) {
      const Img base = fields(it.block.image());
      e.img = base;
      vector<const Said*> sources;
      for (size_t k = i; k-- > 0;) {
        if (parts[k].said.isLayout) {
          sources.push_back(&parts[k].said);
        }
      }
      if (config != nullptr) {
        sources.push_back(config);
      }
      bool found = false;
      if (base.format == ImageFormat::RAW && own(i) != kUnknown) {
        more = give('I', own(i));
        found = true;
      } else if (base.format == ImageFormat::RAW || base.format == ImageFormat::VIDEO || base.format == ImageFormat::CUSTOM_CODEC) {
        for (const Said* s : sources) {
          const bool raw = s->w != 0 && s->h != 0 && s->pixel != PixelFormat::UNDEFINED && s->pixel < PixelFormat::COUNT;
          Img img;
          img.format = base.format;
          img.w = s->w;
          img.h = s->h;
          img.pixel = s->pixel < PixelFormat::COUNT ? s->pixel : PixelFormat::UNDEFINED;
          img.stride = s->stride;
          img.stride2 = s->stride2;
          if (base.format == ImageFormat::RAW) {
            if (!raw) {
              continue;
            }
            const Shape sh = shape(s->pixel, s->w, s->h);
            e.img = img;
            more = give('I', size_t((s->stride != 0 ? Big(s->stride) : sh.line) * sh.lines + Big(sh.planes - 1) * (s->stride2 != 0 ? Big(s->stride2) : sh.line2) * sh.lines2));
            found = true;
            break;
          }
          img.codec = s->codec.empty() ? base.codec : s->codec;
          img.quality = s->quality <= 100 ? uint8_t(s->quality) : base.quality;
          if (size == kUnknown || (base.format == ImageFormat::VIDEO ? !raw : s->codec.empty() && !raw)) {
            continue;
          }
          if (!raw && (s->w == 0 || s->h == 0)) {
            img.w = s->w;
            img.h = s->h;
          }
          if (base.format == ImageFormat::VIDEO && before != nullptr && before->hasKey) {
            img.kts = before->kts;
            img.kidx = before->kidx;
          }
          e.img = img;
          more = give('I', size);
          found = true;
          break;
        }
      } else if (size != kUnknown) {
        more = give('I', size);
        found = true;
      }
      if (!found) {
        e.img = Img{};
        more = unsupported();
      }
    } else { // audio
      const Aud base = fields(it.block.audio());
      Aud a = base;
      bool found = base.format == AudioFormat::PCM && base.sample != AudioSampleFormat::UNDEFINED && base.channels != 0;
      if (!found) {
        vector<const Said*> sources;
        if (before != nullptr) {
          sources.push_back(before);
        }
        if (config != nullptr) {
          sources.push_back(config);
        }
        for (const Said* s : sources) {
          if (s->hasAudio && s->sample != AudioSampleFormat::UNDEFINED && s->channels != 0 && s->rate != 0) {
            found = true;
            a.format = s->aformat;
            a.sample = s->sample;
            a.channels = s->channels;
            a.stride = uint32_t(kSampleBits[int(s->sample)]) / 8 * s->channels;
            a.rate = s->rate;
            a.stereo = s->stereo;
            a.count = s->count != 0 ? s->count : before != nullptr ? before->count : 0;
            break;
          }
        }
      }
      if (found && a.format != AudioFormat::PCM) {
        found = size != kUnknown;
      } else if (found && a.count == 0) {
        found = size != kUnknown && size % a.stride == 0;
        a.count = found ? uint32_t(size / a.stride) : 0;
      } else if (found) {
        const size_t pcm = size_t(a.count) * a.stride;
        found = size == pcm || size == kUnknown;
        if (!found && own(i) == kUnknown) {
          judged = false; // what the samples need and what the record has for them differ
          e.kind = 'U';
          r.push_back(e);
          return r;
        }
        size = pcm;
      }
      if (found) {
        e.aud = a;
        more = give('A', size);
      } else {
        more = unsupported();
      }
    }
    if (!more) {
      return r;
    }
  }
  return r;
}

struct Source : public Dev {
  using Dev::Dev;
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
  void format(Type type, uint32_t version, const vector<const Item*>& f) {
    RecordFormat rf;
    vector<shared_ptr<DataLayout>> keep;
    vector<const DataLayout*> layouts;
    for (const Item* i : f) {
      rf + i->block;
      keep.push_back(layoutOf(i->kind));
      layouts.push_back(keep.back().get());
    }
    if (!addRecordFormat(type, version, rf, layouts)) {
      mc::fail("a record format is refused", rf.asString());
    }
  }
};

string str(const vector<const Item*>& f) {
  string r;
  for (auto* i : f) {
    r += string(r.empty() ? "" : " + ") + i->name;
  }
  return r;
}
string str(const vector<uint8_t>& v) {
  string r;
  for (auto x : v) {
    r += " " + S(x);
  }
  return r;
}

const Item kConfigItem{"layout(config)", kLConfig, ContentType::DATA_LAYOUT};

struct ReadOpt {
  int blocks;
  int items; // of the catalogue
  bool all; // contents of the layouts
};
// All the formats, with all the contents of their blocks, in records of one file.
void reading(const ReadOpt& o) {
  const auto& cat = items();
  vector<const Item*> format;
  for (int i = 0; i < o.blocks; ++i) {
    format.push_back(&cat[size_t(mc::choose(o.items, "block"))]);
  }
  const int withConfig = mc::choose(3, "configuration"); // none, whole, incomplete
  const string path = mc::scratch() + "/f.vrs";
  const vector<Part> configs = partsOf(kLConfig, 0, true);
  struct R {
    vector<Part> parts;
    vector<uint8_t> bytes;
  };
  deque<R> recs;
  // from the last block to the first: the sizes of the next blocks are known
  vector<Part> parts(format.size());
  function<void(int)> make = [&](int i) {
    if (i < 0) {
      vector<uint8_t> bytes;
      for (auto& p : parts) {
        bytes.insert(bytes.end(), p.bytes.begin(), p.bytes.end());
      }
      for (size_t k = 0; k < bytes.size(); ++k) {
        // (content blocks hold their position)
        if (bytes[k] == 0xAB) {
          bytes[k] = uint8_t(100 + k);
        }
      }
      recs.push_back({parts, bytes});
      for (int cut : {1, 2, int(bytes.size())}) {
        if (size_t(cut) <= bytes.size()) {
          recs.push_back({parts, vector<uint8_t>(bytes.begin(), bytes.end() - cut)});
        }
      }
      bytes.push_back(0xCD);
      recs.push_back({parts, bytes});
      return;
    }
    const Item& it = *format[size_t(i)];
    if (it.kind == kBlock) {
      vector<size_t> sizes{4, 0, 5};
      if (it.block.getContentType() == ContentType::EMPTY) {
        sizes = {0};
      } else if (it.block.getBlockSize() != kUnknown) {
        sizes = {it.block.getBlockSize()};
      }
      for (size_t n : sizes) {
        parts[size_t(i)] = {vector<uint8_t>(n, 0xAB), {}};
        make(i - 1);
      }
    } else {
      const uint32_t next = size_t(i) + 1 < parts.size() ? uint32_t(parts[size_t(i) + 1].bytes.size()) : 0;
      for (auto& p : partsOf(it.kind, next, o.all)) {
        parts[size_t(i)] = p;
        make(i - 1);
      }
    }
  };
  make(int(format.size()) - 1);
  Recordable::resetNewInstanceIds();
  {
    RecordFileWriter w;
    Source dev;
    w.addRecordable(&dev);
    dev.format(Type::DATA, 1, format);
    dev.format(Type::CONFIGURATION, 1, {&kConfigItem});
    if (withConfig > 0) {
      dev.create(0, Type::CONFIGURATION, 1, configs[withConfig == 1 ? 0 : 2].bytes);
    }
    double t = 1;
    for (auto& r : recs) {
      dev.create(t++, Type::DATA, 1, r.bytes);
    }
    mc::check(w.writeToFile(path) == 0, "write");
  }
  RecordFileReader reader;
  mc::check(reader.openFile(path) == 0, "open");
  Player player;
  const StreamId id = *reader.getStreams().begin();
  reader.setStreamPlayer(id, &player);
  size_t k = 0;
  for (auto& info : reader.getIndex()) {
    player.evs.clear();
    const int rc = reader.readRecord(info);
    if (rc != 0) {
      mc::fail("reading a record fails", str(format) + " status " + S(rc));
    }
    if (info.recordType == Type::CONFIGURATION) {
      continue;
    }
    const R& r = recs[k++];
    bool judged = true;
    const vector<Ev> want = expected(format, r.parts, r.bytes, withConfig == 0 ? nullptr : &configs[withConfig == 1 ? 0 : 2].said, judged);
    if (!judged && player.evs.size() > want.size()) {
      player.evs.resize(want.size());
    }
    if (player.evs != want) {
      mc::fail("a record's blocks are not given as its format describes them", str(format) + (withConfig == 0 ? "" : " with a configuration") + ", record " + S(int64_t(k)) + " of bytes" + str(r.bytes) + ":" + str(player.evs) + " rather than" + str(want));
    }
    mc::transition();
  }
  mc::check(k == recs.size(), "the number of records");
  mc::traceValidated(k);
  reader.closeFile();
}

// Configuration records of several formats, and data records that need them.
const Item kConfig2a{"layout(image2)", kLImage2, ContentType::DATA_LAYOUT};
const Item kConfigAudio{"layout(audio)", kLAudio, ContentType::DATA_LAYOUT};
const Item kConfig0{"layout", kL0, ContentType::DATA_LAYOUT};
void configs(int length) {
  const auto& cat = items();
  struct C {
    uint32_t version;
    vector<const Item*> format;
    vector<Part> parts;
    bool cut;
    Said said;
  };
  static const vector<C> all = [] {
    vector<C> r;
    auto add = [&](uint32_t version, const vector<const Item*>& f, const vector<size_t>& which, bool cut = false) {
      C c{version, f, {}, cut, {}};
      for (size_t i = 0; i < f.size(); ++i) {
        c.parts.push_back(partsOf(f[i]->kind, 0, true)[which[i]]);
        const Said& s = c.parts.back().said;
        if (s.w != 0 || s.h != 0) {
          c.said.w = s.w, c.said.h = s.h, c.said.pixel = s.pixel, c.said.stride = s.stride, c.said.stride2 = s.stride2;
        }
        if (s.hasAudio) {
          c.said.hasAudio = true, c.said.aformat = s.aformat, c.said.sample = s.sample, c.said.channels = s.channels, c.said.rate = s.rate, c.said.stereo = s.stereo;
        }
      }
      r.push_back(c);
    };
    add(1, {&kConfigItem}, {0});
    add(1, {&kConfigItem}, {1});
    add(1, {&kConfigItem}, {2});
    add(2, {&kConfig0, &kConfig2a, &kConfigAudio}, {0, 0, 0});
    add(2, {&kConfig0, &kConfig2a, &kConfigAudio}, {0, 1, 1});
    add(2, {&kConfig0, &kConfig2a, &kConfigAudio}, {0, 2, 3});
    add(2, {&kConfig0, &kConfig2a, &kConfigAudio}, {0, 0, 0}, true);
    add(3, {&kConfigAudio, &kConfig2a, &kConfig0}, {0, 0, 0});
    add(3, {&kConfigAudio, &kConfig2a, &kConfig0}, {0, 0, 0}, true);
    return r;
  }();
  // the data: what's needed of the configuration differs
  struct D {
    vector<const Item*> format;
    vector<Part> parts;
  };
  static const vector<D> datas = [&] {
    vector<D> r;
    Part p4{vector<uint8_t>(12, 0xAB), {}};
    r.push_back({{&cat[7]}, {p4}}); // raw image
    r.push_back({{&cat[8]}, {p4}}); // audio
    r.push_back({{&cat[9], &cat[7]}, {partsOf(kLImage, 0, true)[0], p4}});
    r.push_back({{&cat[9], &cat[7]}, {partsOf(kLImage, 0, true)[1], p4}});
    r.push_back({{&cat[10], &cat[8]}, {partsOf(kLAudio, 0, true)[0], p4}});
    r.push_back({{&cat[10], &cat[8]}, {partsOf(kLAudio, 0, true)[3], p4}});
    r.push_back({{&cat[15]}, {p4}}); // video
    r.push_back({{&cat[0], &cat[7]}, {partsOf(kL0, 0, true)[0], p4}});
    return r;
  }();
  static const vector<vector<int>> groups{{0}, {1}, {2, 3}, {4, 5}, {6}, {7}};
  const auto& group = groups[size_t(mc::choose(int(groups.size()), "data"))];
  vector<int> seq; // configurations, then -1 - data
  for (int i = 0; i < length; ++i) {
    const int c = mc::choose(int(all.size()) + int(group.size()) + 1, "record");
    if (c == 0) {
      break;
    }
    seq.push_back(c <= int(group.size()) ? -1 - group[size_t(c - 1)] : c - 1 - int(group.size()));
  }
  if (seq.empty() || seq.back() >= 0) {
    return;
  }
  const string path = mc::scratch() + "/f.vrs";
  Recordable::resetNewInstanceIds();
  auto bytesOf = [](const vector<Part>& parts, bool cut) {
    vector<uint8_t> bytes;
    for (auto& p : parts) {
      bytes.insert(bytes.end(), p.bytes.begin(), p.bytes.end());
    }
    if (cut) {
      bytes.resize(2); // not even the first layout
    }
    return bytes;
  };
  {
    RecordFileWriter w;
    Source dev;
    w.addRecordable(&dev);
    dev.format(Type::DATA, 1, datas[size_t(group[0])].format);
    for (size_t i : {0u, 3u, 7u}) {
      dev.format(Type::CONFIGURATION, all[i].version, all[i].format);
    }
    double t = 1;
    for (int s : seq) {
      if (s >= 0) {
        dev.create(t++, Type::CONFIGURATION, all[size_t(s)].version, bytesOf(all[size_t(s)].parts, all[size_t(s)].cut));
      } else {
        dev.create(t++, Type::DATA, 1, bytesOf(datas[size_t(-1 - s)].parts, false));
      }
    }
    mc::check(w.writeToFile(path) == 0, "write");
  }
  RecordFileReader reader;
  mc::check(reader.openFile(path) == 0, "open");
  Player player;
  reader.setStreamPlayer(*reader.getStreams().begin(), &player);
  const C* config = nullptr;
  size_t k = 0;
  for (auto& info : reader.getIndex()) {
    player.evs.clear();
    mc::check(reader.readRecord(info) == 0, "reading a record fails");
    const int s = seq[k++];
    if (s >= 0) {
      config = &all[size_t(s)];
    } else if (config == nullptr || !config->cut) {
      const D& d = datas[size_t(-1 - s)];
      const vector<uint8_t> bytes = bytesOf(d.parts, false);
      bool judged = true;
      const vector<Ev> want = expected(d.format, d.parts, bytes, config != nullptr ? &config->said : nullptr, judged);
      if (player.evs != want) {
        string h;
        for (size_t i = 0; i < k; ++i) {
          h += seq[i] >= 0 ? " c" + S(all[size_t(seq[i])].version) + "." + S(seq[i]) : " d" + S(-1 - seq[i]);
        }
        mc::fail("a block isn't given as the last configuration record describes it", "records" + h + " (" + str(d.format) + "):" + str(player.evs) + " rather than" + str(want));
      }
    }
    mc::transition();
  }
  mc::traceValidated(k);
  reader.closeFile();
}

} // namespace

int main(int argc, char** argv) {
  bool deep = false;
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
  }
  mc::add({"names", names});
  mc::add({"others", others});
  mc::add({"blocks", blocks});
  mc::add({"tagnames", tagNames});
  mc::add({"audios", audios});
  mc::add({"images", images});
  mc::add({"imagesizes", imageSizes});
  mc::add({"formats", formats});
  static const vector<string> words{"image", "audio", "custom", "data_layout", "/", "+", "raw", "video", "size=", "7", "x", "pixel=", "grey8", "codec=", "%4", "pcm"};
  static const vector<string> words2{"image/", "audio/", "/pcm/", "/raw/", "/video/", "channels=", "stride=", "stride_2=", "samples=", "rate=", "codec_quality=", "keyframe_timestamp=", "int16le", "300", "-1", "4294967297", "1e999"};
  mc::add({"texts", [=] { texts(words, deep ? 6 : 5); }});
  mc::add({"texts2", [=] { texts(words2, deep ? 6 : 5); }});
  mc::add({"read1", [] { reading({1, int(items().size()), true}); }});
  mc::add({"read2", [] { reading({2, int(items().size()), true}); }});
  mc::add({"configs", [=] { configs(deep ? 5 : 4); }});
  mc::add({"read3", [=] { reading({3, int(items().size()), deep}); }});
  return mc::main(argc, argv, "C18");
}
