// Logs from several threads in real time, reading the clocks before and after every statement.  Compiled for both
// front ends (PRE: preprocessor).  Prints before/after readings; tread.cc decodes the log.
#ifdef PRE
#include "NanoLog.h"
#else
#include "NanoLogCpp17.h"
#endif
#include <time.h>
#include <unistd.h>
#include <cstdio>
#include <string>
#include <thread>
#include <vector>
#include "Cycles.h"
using namespace NanoLog::LogLevels;
struct Rec { unsigned long before, after; struct timespec r1, r2, m1, m2; };
static const int THREADS = 3, MESSAGES = 60;
static volatile bool later;
static Rec recs[THREADS][MESSAGES];
static void work(int t) {
    std::string pad(300, 'x');
    for (int i = 0; i < MESSAGES; ++i) {
        while (i == MESSAGES / 2 && !later) usleep(1000);
        Rec &r = recs[t][i];
        clock_gettime(CLOCK_REALTIME, &r.r1); clock_gettime(CLOCK_MONOTONIC, &r.m1); r.before = PerfUtils::Cycles::rdtsc();
        NANO_LOG(NOTICE, "live %d %d %s", t, i, pad.c_str());
        r.after = PerfUtils::Cycles::rdtsc(); clock_gettime(CLOCK_MONOTONIC, &r.m2); clock_gettime(CLOCK_REALTIME, &r.r2);
        if (i % 7 == t) usleep(50000 + 20000 * t);
    }
}
int main() {
    NanoLog::setLogFile("live1.log");
    std::vector<std::thread> ts; for (int t = 0; t < THREADS; ++t) ts.emplace_back(work, t);
    usleep(5000000); later = true; usleep(50000); NanoLog::setLogFile("live2.log");
    for (auto &t : ts) t.join();
    NanoLog::sync();
    for (int t = 0; t < THREADS; ++t) for (int i = 0; i < MESSAGES; ++i) {
        Rec &r = recs[t][i];
        printf("%d %d %lu %lu %ld %ld %ld %ld %ld %ld %ld %ld\n", t, i, r.before, r.after, (long)r.r1.tv_sec, (long)r.r1.tv_nsec, (long)r.r2.tv_sec, (long)r.r2.tv_nsec, (long)r.m1.tv_sec, (long)r.m1.tv_nsec, (long)r.m2.tv_sec, (long)r.m2.tv_nsec);
    }
    return 0;
}
