// The logging backend of the code under test: silent (its own header says: redirect where you need).
#include <logging/Log.h>
#include <cstdio>
#include <cstdlib>
namespace vrs {
namespace logging {
static const bool sVerbose = getenv("MC_LOG") != nullptr;
void log(Level level, const char* channel, const string& message) {
  if (sVerbose) {
    fprintf(stderr, "[%s %d] %s\n", channel, (int)level, message.c_str());
  }
}
void log_every_n_seconds(const char*, int, Level level, int, const char* channel, const string& message) {
  log(level, channel, message);
}
} // namespace logging
} // namespace vrs
