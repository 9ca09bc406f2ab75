// The log statements of the preprocessor flavour of edrv.cc; only its generated code is used.
#include "NanoLog.h"
using namespace NanoLog::LogLevels;
void statements(int d, unsigned long a, unsigned long b, double g, void *p, const char *s, const char *t, char c, long l, signed char h) {
    NANO_LOG(NOTICE, "k0 plain");
    NANO_LOG(NOTICE, "k1 %d", d);
    NANO_LOG(NOTICE, "k2 %lu %lu %g %p", a, b, g, p);
    NANO_LOG(NOTICE, "k3 %s", s);
    NANO_LOG(NOTICE, "k4 %c%c%c%c%c%c%c%c%c%c", c, c, c, c, c, c, c, c, c, c);
    NANO_LOG(NOTICE, "k5 %d %s|%s %ld", d, s, t, l);
    NANO_LOG(NOTICE, "k6 %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd", h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h, h);
}
