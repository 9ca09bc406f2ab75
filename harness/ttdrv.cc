// Drives the real TimeTrace.  Script on stdin, one operation per line; results on the
// file given as first argument: "= <op number> <bytes>\n<raw output>".
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <mutex>
#include <string>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include "TimeTrace.h"
using PerfUtils::TimeTrace;
extern uint64_t mockTsc asm("_ZN9PerfUtils6Cycles12mockTscValueE");
extern double mockFreq asm("_ZN9PerfUtils6Cycles16mockCyclesPerSecE");
struct Sized : TimeTrace::Buffer { static unsigned cap() { return BUFFER_SIZE; } };

struct Worker {          // one thread that executes what it is given, one thing at a time
    std::mutex m; std::condition_variable c; std::function<void()> job; bool quit = false;
    std::thread th{[this] { loop(); }};
    void loop() {
        std::unique_lock<std::mutex> g(m);
        for (;;) { c.wait(g, [&] { return job || quit; }); if (!job) return; job(); job = nullptr; c.notify_all(); }
    }
    void run(std::function<void()> f) { std::unique_lock<std::mutex> g(m); job = f; c.notify_all(); c.wait(g, [&] { return !job; }); }
    void end() { { std::lock_guard<std::mutex> g(m); quit = true; } c.notify_all(); th.join(); }
};
static TimeTrace::Buffer *solo;
static std::string longFmt = "%u.%u " + std::string(1100, 'y');
static unsigned count_[10];
static uint64_t base;
template <class R> static void rec1(R r, int f, unsigned b, unsigned i) {
    switch (f) {
        case 0: r("%u.%u", b, i, 0u, 0u); break;
        case 1: r("%u.%u and %u of %u", b, i, i + 1, 7u); break;
        case 2: r("%u.%u 100%% [%5u]", b, i, i, 0u); break;
        case 3: r(longFmt.c_str(), b, i, 0u, 0u); break;
        case 4: r("%u.%u %u %d", b, i, ~0u, ~0u); break;
    }
}
static void record(char op, unsigned b, int f, unsigned n, uint64_t t, uint64_t d) {
    for (unsigned k = 0; k < n; ++k) {
        uint64_t ts = base + t + k * d; unsigned i = ++count_[b];
        if (op == 'a') mockTsc = ts;
        if (f == 5) {
            const char *F = "%u.%u %u%u";
            if (b == 9) op == 'a' ? solo->record(F, b, i) : solo->record(ts, F, b, i);
            else op == 'a' ? TimeTrace::record(F, b, i) : TimeTrace::record(ts, F, b, i);
        } else rec1([&](const char *F, unsigned x, unsigned y, unsigned z, unsigned w) {
            if (b == 9) op == 'a' ? solo->record(F, x, y, z, w) : solo->record(ts, F, x, y, z, w);
            else op == 'a' ? TimeTrace::record(F, x, y, z, w) : TimeTrace::record(ts, F, x, y, z, w); }, f, b, i);
    }
}
static std::string slurp(const char *p, long from) {
    std::string s; FILE *f = fopen(p, "rb"); if (!f) return s; fseek(f, from, SEEK_SET);
    char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s;
}
static long size(const char *p) { struct stat st; return stat(p, &st) ? 0 : (long)st.st_size; }

int main(int, char **argv) {
    FILE *res = fopen(argv[1], "wb");
    mockFreq = atof(argv[2]); base = strtoull(argv[3], nullptr, 10); mockTsc = 1;
    fprintf(res, "cap %u\n", Sized::cap());
    solo = new TimeTrace::Buffer;
    Worker *w[10] = {};
    char line[200]; int no = 0;
    auto put = [&](const std::string &s) { fprintf(res, "= %d %zu\n", no, s.size()); fwrite(s.data(), 1, s.size(), res); fputc('\n', res); fflush(res); };
    while (fgets(line, sizeof line, stdin)) {
        ++no;
        char op; unsigned b = 0, n = 0; int f = 0; unsigned long long t = 0, d = 0;
        sscanf(line, "%c %u %d %u %llu %llu", &op, &b, &f, &n, &t, &d);
        bool own = b >= 1 && b <= 4;
        if (own && !w[b]) w[b] = new Worker;
        switch (op) {
            case 'r': case 'a': if (own) w[b]->run([&] { record(op, b, f, n, t, d); }); else record(op, b, f, n, t, d); break;
            case 't': w[b]->run([&] { TimeTrace::createThreadBuffer(); }); break;
            case 'x': w[b]->end(); break;
            case 'z': if (b == 9) { solo->reset(); count_[9] = 0; } else { TimeTrace::reset(); memset(count_, 0, 9 * sizeof count_[0]); } break;
            case 'g': put(b == 9 ? solo->getTrace() : TimeTrace::getTrace()); break;
            case 'p': {
                TimeTrace::setOutputFileName("trace.txt"); long s = size("trace.txt");
                if (b == 9) solo->print(); else TimeTrace::print();
                put(slurp("trace.txt", s)); break;
            }
            case 's': {
                TimeTrace::setOutputFileName(nullptr); fflush(stdout); long s = size("stdout.txt");
                if (b == 9) solo->print(); else TimeTrace::print();
                fflush(stdout); put(slurp("stdout.txt", s)); break;
            }
            case 'm': {      // the reader of the trace is slow: recording goes on while it is printed
                if (size("fifo") == 0) mkfifo("fifo", 0600);
                int fd = open("fifo", O_RDWR | O_NONBLOCK);
                TimeTrace::setOutputFileName("fifo");
                bool over = false;
                std::thread pr([&] { TimeTrace::print(); __atomic_store_n(&over, true, __ATOMIC_RELEASE); });
                int a = -1, c = 0, same = 0;      // wait until the pipe is full
                while (same < 20 && !__atomic_load_n(&over, __ATOMIC_ACQUIRE)) { ioctl(fd, FIONREAD, &c); same = (c == a && c > 30000) ? same + 1 : 0; a = c; usleep(1000); }
                unsigned before = count_[b];
                w[b]->run([&] { record('r', b, f, n, t, d); });
                count_[b] = before;
                std::string s; char buf[65536]; int empty = 0;
                for (;;) {
                    ssize_t k = read(fd, buf, sizeof buf);
                    if (k > 0) { s.append(buf, k); continue; }
                    if (__atomic_load_n(&over, __ATOMIC_ACQUIRE) && ++empty > 1) break;
                    usleep(200);
                }
                pr.join(); close(fd); put(s); break;
            }
            case 'n': {      // an output file that cannot be opened
                TimeTrace::setOutputFileName("no_such_dir/trace.txt"); TimeTrace::print(); put(""); break;
            }
        }
    }
    fclose(res);
    _exit(0);
}
