// The same source once more, compiled with the instruction set its vectorised path asks for.
#define convertRaw10ToGrey10 convertRaw10ToGrey10Simd
#include <vrs/utils/converters/Raw10ToGrey10Converter.cpp>
