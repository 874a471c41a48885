// C22: packed pixels are converted exactly, whatever the geometry, the alignment and the values.
//
// The real conversion functions are called on buffers of exactly the size the geometry needs, placed
// at every alignment, for every small width, height and padding, and for every value of each packed
// group; the results are compared with a scalar reference written from the description of the
// formats. AddressSanitizer sees any access beyond the end; marks around the output and the padding
// of its lines show any other stray write.
#include "vrsutil.h"

#include <vrs/utils/PixelConversions.h>
#include <vrs/utils/converters/Grey10PackedConverters.h>
#include <vrs/utils/converters/Raw10ToGrey10Converter.h>

namespace vrs::utils {
bool convertRaw10ToGrey10Simd(void* dst, const void* src, size_t width, size_t height, size_t stride);
}

namespace {

using namespace vu;
using namespace vrs::utils;
using namespace vrs::utils::pixel_conversions;

bool deep = false;

// a buffer of exactly n bytes at an address that is `align` beyond a multiple of 16; the bytes
// before it carry marks, the end is the end of the allocation
struct Buf {
  static constexpr uint8_t kMark = 0xA5;
  uint8_t* base;
  uint8_t* p;
  size_t n, before;
  Buf(size_t n_, size_t align) : n(n_), before(16 + align) {
    base = static_cast<uint8_t*>(malloc(before + n));
    p = base + before;
    memset(base, kMark, before + n);
  }
  ~Buf() {
    free(base);
  }
  Buf(const Buf&) = delete;
  void checkBefore(const char* what) const {
    for (size_t i = 0; i < before; ++i) {
      if (base[i] != kMark) {
        mc::fail("before-buffer", string(what) + ": " + S(before - i) + " bytes before the buffer");
      }
    }
  }
};

uint8_t noise(size_t i) {
  return static_cast<uint8_t>((i * 0x9E3779B97F4A7C15ull + 0x1234567) >> 40);
}

void compare(const char* what, const Buf& out, const vector<uint8_t>& want, const string& geometry) {
  if (memcmp(out.p, want.data(), want.size()) != 0) {
    size_t i = 0;
    while (out.p[i] == want[i]) {
      ++i;
    }
    mc::fail(string(what), geometry + " byte " + S(i) + ": " + S(out.p[i]) + " instead of " + S(want[i]));
  }
  out.checkBefore(what);
}

// ---- the formats, pixel by pixel ----

uint16_t raw10(const uint8_t* line, size_t x) { // 4 bytes of high bits, then one with the low bits of each
  const uint8_t* g = line + x / 4 * 5;
  return uint16_t(g[x % 4] << 2 | ((g[4] >> (2 * (x % 4))) & 3));
}
uint16_t packed10(const uint8_t* line, size_t x) { // little endian bit string
  size_t bit = x * 10;
  return uint16_t(((line[bit / 8] | line[bit / 8 + 1] << 8) >> (bit % 8)) & 0x3ff);
}
void setPacked10(uint8_t* line, size_t x, uint16_t v) {
  for (int b = 0; b < 10; ++b) {
    size_t bit = x * 10 + b;
    line[bit / 8] = uint8_t((line[bit / 8] & ~(1 << (bit % 8))) | (((v >> b) & 1) << (bit % 8)));
  }
}
void put16(uint8_t* p, uint16_t v) {
  memcpy(p, &v, 2);
}
uint16_t get16(const uint8_t* p) {
  uint16_t v;
  memcpy(&v, p, 2);
  return v;
}

struct Geo {
  uint32_t w, h;
  size_t srcLine, dstLine; // bytes of a line, without padding
  size_t srcStride, dstStride;
  size_t srcAlign, dstAlign;
  string str() const {
    return S(w) + "x" + S(h) + " strides " + S(srcStride) + "," + S(dstStride) + " alignments " + S(srcAlign) + "," +
        S(dstAlign);
  }
};

// One conversion: how many bytes lines take, how the library is called, and what it should give.
struct Conversion {
  const char* name;
  int widthStep; // widths are multiples of this
  int alignStep; // alignments and paddings of both sides are multiples of this...
  int dstAlignStep;
  bool strides; // false: one run of pixels
  bool dstStrides;
  std::function<size_t(uint32_t)> srcLine, dstLine;
  // returns whether the library accepted
  std::function<bool(const Geo&, const Buf& src, Buf& dst)> call;
  std::function<void(const uint8_t* srcLine, uint8_t* dstLine, uint32_t width)> reference;
  bool inPlace = false;
};

size_t packedLine(size_t w) {
  return (w + 3) / 4 * 5;
}

vector<Conversion> conversions() {
  vector<Conversion> c;
  auto raw10line = [](uint32_t w) -> size_t { return w / 4 * 5 + w % 4; };
  auto ref10 = [](const uint8_t* s, uint8_t* d, uint32_t w) {
    for (uint32_t x = 0; x < w; ++x) {
      put16(d + 2 * x, raw10(s, x));
    }
  };
  auto twice = [](uint32_t w) -> size_t { return 2 * w; };
  auto same = [](uint32_t w) -> size_t { return w; };
  auto triple = [](uint32_t w) -> size_t { return 3 * w; };
  auto quad = [](uint32_t w) -> size_t { return 4 * w; };
  c.push_back({"raw10-grey10", 4, 1, 2, true, false, raw10line, twice,
               [](const Geo& g, const Buf& s, Buf& d) { return convertRaw10ToGrey10(d.p, s.p, g.w, g.h, g.srcStride); },
               ref10});
  c.push_back({"raw10-grey10-simd", 4, 1, 2, true, false, raw10line, twice,
               [](const Geo& g, const Buf& s, Buf& d) { return convertRaw10ToGrey10Simd(d.p, s.p, g.w, g.h, g.srcStride); },
               ref10});
  c.push_back({"raw10-grey8", 1, 1, 1, true, true, raw10line, same,
               [](const Geo& g, const Buf& s, Buf& d) {
                 convertRaw10ToGrey8(s.p, g.srcStride, d.p, g.dstStride, g.w, g.h);
                 return true;
               },
               [](const uint8_t* s, uint8_t* d, uint32_t w) {
                 for (uint32_t x = 0; x < w; ++x) {
                   d[x] = s[x / 4 * 5 + x % 4];
                 }
               }});
  c.push_back({"grey10packed-grey16", 1, 1, 2, true, true, packedLine, twice,
               [](const Geo& g, const Buf& s, Buf& d) {
                 return convertGrey10PackedToGrey16(d.p, d.n, g.dstStride, s.p, s.n, g.w, g.h, g.srcStride);
               },
               [](const uint8_t* s, uint8_t* d, uint32_t w) {
                 for (uint32_t x = 0; x < w; ++x) {
                   put16(d + 2 * x, packed10(s, x) << 6);
                 }
               }});
  c.push_back({"grey10packed-grey8", 1, 1, 1, true, true, packedLine, same,
               [](const Geo& g, const Buf& s, Buf& d) {
                 return convertGrey10PackedToGrey8(d.p, d.n, g.dstStride, s.p, s.n, g.w, g.h, g.srcStride);
               },
               [](const uint8_t* s, uint8_t* d, uint32_t w) {
                 for (uint32_t x = 0; x < w; ++x) {
                   d[x] = packed10(s, x) >> 2;
                 }
               }});
  c.push_back({"grey10-grey10packed", 1, 2, 1, true, true, twice, packedLine,
               [](const Geo& g, const Buf& s, Buf& d) {
                 return convertGrey10ToGrey10Packed(d.p, d.n, g.dstStride, s.p, s.n, g.w, g.h, g.srcStride);
               },
               [](const uint8_t* s, uint8_t* d, uint32_t w) {
                 memset(d, 0, packedLine(w));
                 for (uint32_t x = 0; x < w; ++x) {
                   setPacked10(d, x, get16(s + 2 * x) & 0x3ff);
                 }
               }});
  auto refRgb = [](const uint8_t* s, uint8_t* d, uint32_t w) {
    for (uint32_t x = 0; x < w; ++x) {
      memmove(d + 3 * x, s + 4 * x, 3);
    }
  };
  c.push_back({"rgba-rgb", 1, 1, 1, true, true, quad, triple,
               [](const Geo& g, const Buf& s, Buf& d) {
                 convertRgbaToRgb(s.p, g.srcStride, d.p, g.dstStride, g.w, g.h);
                 return true;
               },
               refRgb});
  c.push_back({"rgba-rgb-inplace", 1, 1, 1, true, false, quad, triple,
               [](const Geo& g, const Buf& s, Buf& d) {
                 convertRgbaToRgb(s.p, g.srcStride, s.p, g.dstStride, g.w, g.h);
                 memcpy(d.p, s.p, d.n);
                 return true;
               },
               refRgb, true});
  c.push_back({"bgr-rgb", 1, 1, 1, false, false, triple, triple,
               [](const Geo& g, const Buf& s, Buf& d) {
                 convertBgr8ToRgb8(s.p, d.p, g.w);
                 return true;
               },
               [](const uint8_t* s, uint8_t* d, uint32_t w) {
                 for (uint32_t x = 0; x < 3 * w; ++x) {
                   d[x] = s[x / 3 * 3 + 2 - x % 3];
                 }
               }});
  c.push_back({"grey8-rgb", 1, 1, 1, true, true, same, triple,
               [](const Geo& g, const Buf& s, Buf& d) {
                 convertGreyToRgb8(s.p, g.srcStride, d.p, g.dstStride, g.w, g.h);
                 return true;
               },
               [](const uint8_t* s, uint8_t* d, uint32_t w) {
                 for (uint32_t x = 0; x < 3 * w; ++x) {
                   d[x] = s[x / 3];
                 }
               }});
  c.push_back({"yuy2-rgb", 2, 1, 1, true, true, twice, triple,
               [](const Geo& g, const Buf& s, Buf& d) {
                 convertYuy2ToRgb8(s.p, g.srcStride, d.p, g.dstStride, g.w, g.h);
                 return true;
               },
               [](const uint8_t* s, uint8_t* d, uint32_t w) {
                 auto clip = [](int v) { return uint8_t(v < 0 ? 0 : v > 255 ? 255 : v); };
                 for (uint32_t x = 0; x < w; ++x, d += 3) {
                   const uint8_t* m = s + x / 2 * 4;
                   int C = 298 * (m[x % 2 * 2] - 16) + 128, D = m[1] - 128, E = m[3] - 128;
                   d[0] = clip((C + 409 * E) >> 8);
                   d[1] = clip((C - 100 * D - 208 * E) >> 8);
                   d[2] = clip((C + 516 * D) >> 8);
                 }
               }});
  c.push_back({"upscale16", 1, 2, 2, false, false, twice, twice,
               [](const Geo& g, const Buf& s, Buf& d) {
                 upscalePixels16(reinterpret_cast<uint16_t*>(s.p), reinterpret_cast<uint16_t*>(d.p), g.w, 6);
                 return true;
               },
               [](const uint8_t* s, uint8_t* d, uint32_t w) {
                 for (uint32_t x = 0; x < w; ++x) {
                   put16(d + 2 * x, uint16_t(get16(s + 2 * x) * 64));
                 }
               }});
  c.push_back({"downscale16", 1, 2, 1, false, false, twice, same,
               [](const Geo& g, const Buf& s, Buf& d) {
                 downscalePixels16To8(reinterpret_cast<uint16_t*>(s.p), d.p, g.w, 4);
                 return true;
               },
               [](const uint8_t* s, uint8_t* d, uint32_t w) {
                 for (uint32_t x = 0; x < w; ++x) {
                   d[x] = uint8_t(get16(s + 2 * x) / 16);
                 }
               }});
  return c;
}

void convertOne(const Conversion& c, const Geo& g, const std::function<void(uint8_t*, size_t)>& fill) {
  size_t srcSize = g.srcStride * (g.h - 1) + g.srcLine;
  size_t dstSize = g.dstStride * (g.h - 1) + g.dstLine;
  // (the packed formats' functions are given the size of the buffers, and want whole lines)
  if (strncmp(c.name, "grey10", 6) == 0) {
    srcSize = g.srcStride * g.h;
    dstSize = g.dstStride * g.h;
  }
  Buf src(srcSize, g.srcAlign), dst(dstSize, g.dstAlign);
  fill(src.p, src.n);
  vector<uint8_t> in(src.p, src.p + src.n), want(dstSize, Buf::kMark);
  for (uint32_t y = 0; y < g.h; ++y) {
    c.reference(in.data() + y * g.srcStride, want.data() + y * g.dstStride, g.w);
  }
  bool ok = c.call(g, src, dst);
  if (!ok) {
    mc::fail(string(c.name) + "-refused", g.str());
  }
  compare(c.name, dst, want, g.str());
  if (!c.inPlace) {
    if (memcmp(src.p, in.data(), in.size()) != 0) {
      mc::fail(string(c.name) + "-source", g.str() + ": the source was modified");
    }
  }
  src.checkBefore(c.name);
  mc::transition();
}

void geometry(const Conversion& c) {
  const int maxWidth = deep ? 72 : 36;
  Geo g;
  g.w = c.widthStep * (1 + mc::choose(maxWidth / c.widthStep, "width"));
  g.h = c.strides ? 1 + mc::choose(3, "height") : 1;
  g.srcLine = c.srcLine(g.w);
  g.dstLine = c.dstLine(g.w);
  const size_t pads[] = {0, 1, 2, 5, 8};
  int nsrc = c.strides ? (g.h > 1 || strncmp(c.name, "grey10", 6) == 0 ? 5 : 2) : 1;
  g.srcStride = g.srcLine + c.alignStep * pads[mc::choose(nsrc, "src-pad")];
  g.dstStride = g.dstLine + (c.dstStrides ? c.dstAlignStep * pads[mc::choose(g.h > 1 ? 5 : 1, "dst-pad")] : 0);
  if (c.inPlace) {
    g.srcAlign = g.dstAlign = mc::choose(8, "align");
  } else {
    g.srcAlign = c.alignStep * mc::choose(8 / c.alignStep, "src-align");
    g.dstAlign = c.dstAlignStep * mc::choose((strstr(c.name, "simd") != nullptr ? 16 : 8) / c.dstAlignStep, "dst-align");
  }
  convertOne(c, g, [](uint8_t* p, size_t n) {
    for (size_t i = 0; i < n; ++i) {
      p[i] = noise(i + 1);
    }
  });
  mc::state(mc::hashStr(string(c.name) + g.str()));
  mc::traceValidated();
}

Geo tight(const Conversion& c, uint32_t w, uint32_t h, size_t align) {
  Geo g;
  g.w = w;
  g.h = h;
  g.srcLine = g.srcStride = c.srcLine(w);
  g.dstLine = g.dstStride = c.dstLine(w);
  g.srcAlign = g.dstAlign = align;
  return g;
}

// Every value: each pixel's, and each pair of neighbours', with the rest all zeros or all ones.
void values10(const Conversion& c) {
  const bool packed = strncmp(c.name, "grey10packed", 12) == 0, unpack = strncmp(c.name, "grey10-", 7) != 0;
  int pos = mc::choose(4, "position");
  uint16_t rest = mc::choose(2, "rest") != 0 ? 0x3ff : 0;
  bool wide = mc::choose(2, "wide") != 0; // (in reach of the vectorised paths, or not)
  int high = mc::choose(64, "first value's high bits");
  const uint32_t w = wide ? 16 : 4;
  const uint32_t lines = 1024;
  Geo g = tight(c, w, lines, 0);
  for (int low = 0; low < 16; ++low) {
    uint16_t first = uint16_t(high * 16 + low);
    convertOne(c, g, [&](uint8_t* p, size_t n) {
      for (uint32_t y = 0; y < lines; ++y) {
        uint8_t* line = p + y * g.srcStride;
        for (uint32_t x = 0; x < w; ++x) {
          uint16_t v = x % 4 == uint32_t(pos) ? first : x % 4 == uint32_t(pos + 1) % 4 ? uint16_t(y) : rest;
          if (!unpack) {
            put16(line + 2 * x, v | (rest << 10));
          } else if (packed) {
            setPacked10(line, x, v);
          } else {
            uint8_t* group = line + x / 4 * 5;
            group[x % 4] = uint8_t(v >> 2);
            group[4] = uint8_t((x % 4 == 0 ? 0 : group[4]) | (v & 3) << (2 * (x % 4)));
          }
        }
      }
    });
  }
  mc::state(mc::hashInt(pos * 1000 + rest + high * 7 + wide, mc::hashStr(c.name)));
  mc::traceValidated();
}

void valuesYuy2(const Conversion& c) { // every y, u, v
  int u = mc::choose(256, "u");
  size_t align = mc::choose(2, "align");
  Geo g = tight(c, 256, 256, align);
  convertOne(c, g, [&](uint8_t* p, size_t n) {
    for (int v = 0; v < 256; ++v) {
      for (int x = 0; x < 128; ++x) {
        uint8_t* m = p + v * g.srcStride + 4 * x;
        m[0] = uint8_t(x);
        m[1] = uint8_t(u);
        m[2] = uint8_t(255 - x);
        m[3] = uint8_t(v);
      }
    }
  });
  convertOne(c, g, [&](uint8_t* p, size_t n) {
    for (int v = 0; v < 256; ++v) {
      for (int x = 0; x < 128; ++x) {
        uint8_t* m = p + v * g.srcStride + 4 * x;
        m[0] = uint8_t(255 - x);
        m[1] = uint8_t(u);
        m[2] = uint8_t(x);
        m[3] = uint8_t(v);
      }
    }
  });
  mc::state(mc::hashInt(u * 2 + align));
  mc::traceValidated();
}

void values16() { // every 16 bit value, every shift
  int shift = mc::choose(9, "shift");
  vector<uint16_t> in(65536), up(65536);
  vector<uint8_t> down(65536);
  for (int i = 0; i < 65536; ++i) {
    in[i] = uint16_t(i);
  }
  upscalePixels16(in.data(), up.data(), 65536, uint16_t(shift));
  downscalePixels16To8(in.data(), down.data(), 65536, uint16_t(shift));
  for (uint32_t i = 0; i < 65536; ++i) {
    if (up[i] != ((i << shift) & 0xffff)) {
      mc::fail("upscale-value", S(i) + "<<" + S(shift) + ": " + S(up[i]));
    }
    if (down[i] != ((i >> shift) & 0xff)) {
      mc::fail("downscale-value", S(i) + ">>" + S(shift) + ": " + S(down[i]));
    }
  }
  mc::transition(2);
  mc::state(shift);
  mc::traceValidated();
}

// every byte value of every pixel of a few, for the formats that only move bytes
void valuesBytes(const Conversion& c) {
  int step = mc::choose(16, "step");
  size_t align = mc::choose(8, "align");
  Geo g = tight(c, 16, 1, align);
  for (int k = 0; k < 256; ++k) {
    convertOne(c, g, [&](uint8_t* p, size_t n) {
      for (size_t i = 0; i < n; ++i) {
        p[i] = uint8_t(k + i * (2 * step + 1));
      }
    });
  }
  mc::state(mc::hashInt(step * 8 + align, mc::hashStr(c.name)));
  mc::traceValidated();
}

// Buffers too small, lines too short, sizes whose product does not fit in 32 bits: refused, and
// nothing is written.
void refusals() {
  struct Fn {
    const char* name;
    bool (*fn)(void*, uint32_t, uint32_t, const void*, uint32_t, uint32_t, uint32_t, uint32_t);
    std::function<size_t(uint32_t)> srcLine, dstLine;
  };
  const vector<Fn> fns = {
      {"grey10packed-grey16", convertGrey10PackedToGrey16, packedLine, [](uint32_t w) -> size_t { return size_t(2) * w; }},
      {"grey10packed-grey8", convertGrey10PackedToGrey8, packedLine, [](uint32_t w) -> size_t { return w; }},
      {"grey10-grey10packed", convertGrey10ToGrey10Packed, [](uint32_t w) -> size_t { return size_t(2) * w; }, packedLine},
  };
  const Fn& f = mc::pick(fns, "function");
  // (some so large that the size of a line doesn't fit in 32 bits)
  const uint32_t kHugeWidths[] = {0xfffffffdu, 0xffffffffu, 0x80000000u, 0xccccccccu};
  const int wk = mc::choose(17, "width");
  const uint32_t w = wk < 13 ? 1 + wk : kHugeWidths[wk - 13];
  const uint32_t h = 1 + mc::choose(3, "height");
  const int64_t kStrides[] = {-5, -2, -1, 0, 1, 2, 5};
  const int64_t kHuge[] = {0x40000000, 0x55555556, 0x80000000ll, 0xffffffffll};
  auto stride = [&](size_t line, const char* label) -> uint32_t {
    int k = mc::choose(11, label);
    int64_t s = k < 7 ? int64_t(uint32_t(line)) + kStrides[k] : kHuge[k - 7];
    return uint32_t(std::max<int64_t>(s, 0));
  };
  const uint32_t srcStride = stride(f.srcLine(w), "src-stride"), dstStride = stride(f.dstLine(w), "dst-stride");
  auto size = [&](uint64_t need, const char* label) -> uint32_t {
    const int64_t d[] = {0, -1, 1, -int64_t(need)};
    int64_t n = int64_t(need) + d[mc::choose(4, label)];
    return uint32_t(std::min<int64_t>(std::max<int64_t>(n, 0), 200));
  };
  const uint64_t srcNeed = uint64_t(srcStride) * h, dstNeed = uint64_t(dstStride) * h;
  const uint32_t srcSize = size(srcNeed, "src-size"), dstSize = size(dstNeed, "dst-size");
  // what every implementation has to refuse: lines that don't hold their pixels, buffers that don't
  // hold their lines (the last one without its padding may be enough)
  const bool must = srcStride < f.srcLine(w) || dstStride < f.dstLine(w) ||
      srcSize < uint64_t(srcStride) * (h - 1) + f.srcLine(w) || dstSize < uint64_t(dstStride) * (h - 1) + f.dstLine(w);
  const bool may = srcSize < srcNeed || dstSize < dstNeed;
  Buf src(srcSize, 0), dst(dstSize, 0);
  for (size_t i = 0; i < src.n; ++i) {
    src.p[i] = noise(i);
  }
  bool ok = f.fn(dst.p, dstSize, dstStride, src.p, srcSize, w, h, srcStride);
  const string what = string(f.name) + " " + S(w) + "x" + S(h) + " strides " + S(srcStride) + "," + S(dstStride) +
      " sizes " + S(srcSize) + "," + S(dstSize);
  if (ok && must) {
    mc::fail("accepted-too-small", what);
  }
  if (!ok && !must && !may) {
    mc::fail("refused-good", what);
  }
  if (!ok) {
    for (size_t i = 0; i < dst.n; ++i) {
      if (dst.p[i] != Buf::kMark) {
        mc::fail("written-though-refused", what);
      }
    }
  }
  mc::transition();
  mc::state(mc::hashStr(what));
  mc::traceValidated();
}

void refusalsRaw10() {
  bool simd = mc::choose(2, "simd") != 0;
  size_t w = 1 + mc::choose(24, "width"), h = 1 + mc::choose(2, "height");
  size_t line = (w + 3) / 4 * 5;
  size_t strideOff = mc::choose(4, "stride"); // as needed, more, less
  size_t stride = strideOff == 0 ? line : strideOff == 1 ? line + 3 : strideOff == 2 ? line - 1 : line - 5;
  Buf src(std::max(stride, line) * h, 0), dst(2 * w * h, 0);
  memset(src.p, 0x3c, src.n);
  bool ok = (simd ? convertRaw10ToGrey10Simd : convertRaw10ToGrey10)(dst.p, src.p, w, h, stride);
  const string what = S(w) + "x" + S(h) + " stride " + S(stride);
  if (ok != (w % 4 == 0 && stride >= line)) {
    mc::fail(ok ? "raw10-accepted" : "raw10-refused", what);
  }
  mc::transition();
  mc::state(mc::hashStr(what));
  mc::traceValidated();
}

// ---- floating point images ----

const float kNan = std::numeric_limits<float>::quiet_NaN(), kInf = std::numeric_limits<float>::infinity();

void rangeNormalization() {
  const vector<float> ends = {-3.5f, 0.f, 0.001f, 1.f, 6.f, 255.f, 1e6f};
  float lo = mc::pick(ends, "min"), hi = mc::pick(ends, "max");
  if (!(lo < hi)) {
    return; // (the caller's condition)
  }
  vector<float> in = {kNan, -kInf, kInf, lo, hi, std::nextafter(lo, -kInf), std::nextafter(hi, kInf), 0.f, -0.f, -1e30f, 1e30f};
  for (int i = 0; i <= 255 * 4; ++i) {
    in.push_back(lo + (hi - lo) * float(i) / (255 * 4));
  }
  Buf src(in.size() * 4, 0), dst(in.size(), mc::choose(8, "align"));
  memcpy(src.p, in.data(), src.n);
  normalizeBufferWithRange(src.p, dst.p, in.size(), lo, hi);
  for (size_t i = 0; i < in.size(); ++i) {
    double v = in[i], x = (v - lo) * 255. / (double(hi) - lo);
    int want = std::isnan(v) || x <= 0 ? 0 : x >= 255 ? 255 : int(x);
    // (rounding: the next integer up or down from the exact position)
    bool ok = dst.p[i] == want ||
        (!std::isnan(v) && x > 0 && x < 255 && std::fabs(dst.p[i] - x) <= 1.001);
    if (!ok) {
      mc::fail("range-value", F(v) + " in [" + F(lo) + ", " + F(hi) + "]: " + S(dst.p[i]) + " instead of " + S(want));
    }
  }
  dst.checkBefore("range");
  mc::transition();
  mc::state(mc::hashInt(mc::hashStr(F(lo) + F(hi))));
  mc::traceValidated();
}

// percentiles: the order of pixels is kept, not-a-number is black, and too little data gives a blank image
template <class Float>
void percentileNormalization() {
  const vector<Float> palette = {Float(kNan), Float(kInf), Float(-1), Float(0), Float(0.5), Float(1), Float(2), Float(100)};
  uint32_t w = 1 + mc::choose(12, "width"), h = 1 + mc::choose(4, "height");
  int a = mc::choose(int(palette.size()), "a"), b = mc::choose(int(palette.size()), "b"), c = mc::choose(int(palette.size()), "c");
  int pattern = mc::choose(3, "pattern");
  const uint32_t n = w * h;
  Buf src(n * sizeof(Float), 0), dst(n, 1);
  vector<Float> in(n);
  int valid = 0;
  for (uint32_t i = 0; i < n; ++i) {
    int k = pattern == 0 ? i % 3 : pattern == 1 ? (i * 3 / n) % 3 : (i % 7 == 0 ? 1 : i % 5 == 0 ? 2 : 0);
    in[i] = palette[k == 0 ? a : k == 1 ? b : c];
    valid += std::isfinite(in[i]) && in[i] > 0;
  }
  memcpy(src.p, in.data(), src.n);
  normalizeBuffer<Float>(src.p, dst.p, w, h);
  std::map<Float, int> value;
  for (uint32_t i = 0; i < n; ++i) {
    if (std::isnan(in[i])) {
      mc::check(dst.p[i] == 0, "nan-not-black");
      continue;
    }
    auto it = value.find(in[i]);
    if (it != value.end()) {
      mc::check(it->second == dst.p[i], "same-value-differs");
    }
    value[in[i]] = dst.p[i];
  }
  int previous = 0;
  for (auto& v : value) {
    if (v.second < previous) {
      mc::fail("order-not-kept", F(v.first) + ": " + S(v.second) + " after " + S(previous));
    }
    previous = v.second;
  }
  if (valid == 0) {
    for (uint32_t i = 0; i < n; ++i) {
      mc::check(dst.p[i] == 0, "not-blank");
    }
  }
  dst.checkBefore("percentile");
  mc::transition();
  mc::state(mc::hashBytes(dst.p, dst.n));
  mc::traceValidated();
}

void channelNormalization() {
  const vector<float> palette = {kNan, -2.f, 0.f, 0.25f, 1.f, 1000.f};
  int channels = 3 + mc::choose(2, "channels");
  const int n = 3;
  Buf src(n * channels * 4, 0), dst(n * 3, mc::choose(4, "align"));
  float in[n][4];
  int r = mc::choose(int(palette.size()), "other");
  for (int i = 0; i < n; ++i) {
    in[i][0] = mc::pick(palette, "pixel");
    in[i][1] = palette[(r + i) % palette.size()];
    in[i][2] = palette[(r * i + 2) % palette.size()];
    in[i][3] = i == 1 ? 1e9f : kNan; // alpha doesn't matter
    memcpy(src.p + i * channels * 4, in[i], channels * 4);
  }
  normalizeRGBXfloatToRGB8(src.p, dst.p, n, channels);
  for (int ch = 0; ch < 3; ++ch) {
    double lo = 0, hi = 0;
    bool some = false;
    for (auto& px : in) {
      if (!std::isnan(px[ch])) {
        lo = some ? std::min<double>(lo, px[ch]) : px[ch];
        hi = some ? std::max<double>(hi, px[ch]) : px[ch];
        some = true;
      }
    }
    for (int i = 0; i < n; ++i) {
      double v = in[i][ch], x = hi > lo ? (v - lo) * 255 / (hi - lo) : 0;
      int got = dst.p[i * 3 + ch];
      if (std::isnan(v) ? got != 0 : std::fabs(got - x) > 1.001) {
        mc::fail("channel-value", "channel " + S(ch) + " pixel " + S(i) + ": " + S(got) + " instead of " + F(x));
      }
    }
  }
  dst.checkBefore("channels");
  mc::transition();
  mc::state(mc::hashBytes(dst.p, dst.n));
  mc::traceValidated();
}

void sampler() {
  uint32_t w = 1 + mc::choose(40, "width"), h = 1 + mc::choose(40, "height");
  const uint32_t most[] = {1, 7, 100, 5000};
  uint32_t limit = most[mc::choose(4, "samples")];
  uint32_t stride = mc::choose(2, "stride") ? w + 3 : w;
  R2Sampler2D s(w, h, limit, stride);
  uint32_t n = 0;
  for (uint32_t i : s) {
    if (i / stride >= h || i % stride >= w) {
      mc::fail("sample-outside", S(w) + "x" + S(h) + ": " + S(i));
    }
    ++n;
  }
  mc::check(n == std::min(limit, w * h) && n == s.sampleCount(), "sample-count");
  mc::transition();
  mc::state(mc::hashInt(w * 100 + h));
  mc::traceValidated();
}

} // namespace

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    deep |= string(argv[i]) == "--thorough";
  }
  static const vector<Conversion> all = conversions();
  for (const Conversion& c : all) {
    mc::add({string("geometry-") + c.name, [&c]() { geometry(c); }});
    const string name = c.name;
    if (name.find("10") != string::npos) {
      mc::add({"values-" + name, [&c]() { values10(c); }});
    } else if (name == "yuy2-rgb") {
      mc::add({"values-" + name, [&c]() { valuesYuy2(c); }});
    } else if (name.find("16") == string::npos) {
      mc::add({"values-" + name, [&c]() { valuesBytes(c); }});
    }
  }
  mc::add({"values-16", values16});
  mc::add({"refusals", refusals});
  mc::add({"refusals-raw10", refusalsRaw10});
  mc::add({"range", rangeNormalization});
  mc::add({"percentile-float", percentileNormalization<float>});
  mc::add({"percentile-double", percentileNormalization<double>});
  mc::add({"channels", channelNormalization});
  mc::add({"sampler", sampler});
  return mc::main(argc, argv, "C22");
}
