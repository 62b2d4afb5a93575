// What every simulated program needs besides the library itself.
#include "rt_int.h"
#include <cstdio>
#include <cstring>
#include "mg/box/Log.h"
namespace sim {
[[gnu::weak]] void resetKernel() {}
[[gnu::weak]] void preInit() {}
}
namespace mg { namespace box {
void LogV(LogLevel, const char* tag, int, const char*, const char* fmt, va_list ap) {
  char b[512];
  vsnprintf(b, sizeof(b), fmt, ap);
  sim::note("log %s: %s", tag, b);
}
} }
