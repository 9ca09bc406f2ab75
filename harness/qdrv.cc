// Driver for the real StagingBuffer: replays sequential behaviours (script mode,
// QSCRIPT defined) or runs a producer and a consumer thread (under vsched or
// free-running), or both as coroutines that are switched at any access to the
// buffer, exploring all schedules with few preemptions (QCORO).  Reports every call and return with the real pointers and bytes.
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#define EXPOSE_PRIVATES
#include "RuntimeLogger.h"
#if defined(QSCRIPT) || defined(QCORO)
#include <stdarg.h>
static std::string out;
static void vs_emit(const char *fmt, ...) {
    char b[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!out.empty() && out.back() != '[') out += ",";
    out.append(b, n);
}
static void vs_off() {}
static void vs_on() {}
#else
#include "vsched.h"
#endif
using namespace NanoLogInternal;
typedef RuntimeLogger::StagingBuffer SB;

namespace {
const int N = NanoLogConfig::STAGING_BUFFER_SIZE;
SB *sb;
int nextByte = 0;
unsigned char fresh() { nextByte = nextByte % 250 + 1; return (unsigned char)nextByte; }
std::string list(const unsigned char *b, size_t n) {
    std::string s = "["; char t[8];
    for (size_t i = 0; i < n; ++i) { snprintf(t, sizeof t, i ? ",%d" : "%d", b[i]); s += t; }
    return s + "]";
}
int offOf(char *p) { return p ? (int)(p - sb->storage) : -1; }
bool inRing(long off, long n) { return off >= 0 && n >= 0 && off + n <= N; }

// copies through instrumented accesses, so that every byte is a scheduling point
__attribute__((noinline)) void put(char *dst, const unsigned char *src, size_t n) { for (size_t i = 0; i < n; ++i) dst[i] = (char)src[i]; }
__attribute__((noinline)) void get(unsigned char *dst, const char *src, size_t n) { for (size_t i = 0; i < n; ++i) dst[i] = (unsigned char)src[i]; }

char *reserve(int n, bool blocking) {
    vs_emit("{\"op\":\"rc\",\"n\":%d}", n);
    char *p = blocking || (uint64_t)n < sb->minFreeSpace ? sb->reserveProducerSpace(n) : sb->reserveSpaceInternal(n, false);
    int off = offOf(p);
    vs_emit("{\"op\":\"rr\",\"off\":%d,\"n\":%d}", off, n);
    if (p && !inRing(off, n)) { vs_emit("{\"op\":\"bad\",\"k\":\"outside\"}"); return nullptr; }
    return p;
}
void commit(char *p, int n) {
    unsigned char b[4096];
    for (int i = 0; i < n; ++i) b[i] = fresh();
    put(p, b, n);
    vs_emit("{\"op\":\"cc\",\"b\":%s}", list(b, n).c_str());
    sb->finishReservation(n);
    vs_emit("{\"op\":\"cr\"}");
}
char *peek(uint64_t &n) {
    unsigned char b[4096];
    vs_emit("{\"op\":\"pc\"}");
    n = ~0ull;
    char *p = sb->peek(&n);
    if (n > 0 && !inRing(offOf(p), (long)n)) { vs_emit("{\"op\":\"bad\",\"k\":\"peek\"}"); n = 0; return nullptr; }
    get(b, p, n);
    vs_emit("{\"op\":\"pr\",\"off\":%d,\"n\":%d,\"b\":%s}", offOf(p), (int)n, list(b, n).c_str());
    return p;
}
void consume(char *p, uint64_t av, int k) {
    unsigned char b[4096];
    get(b, p, av);
    vs_emit("{\"op\":\"rd\",\"b\":%s}", list(b, av).c_str());
    vs_emit("{\"op\":\"xc\",\"n\":%d}", k);
    sb->consume(k);
    vs_emit("{\"op\":\"xr\"}");
}
}

#ifdef QCORO
#include <pthread.h>
#include <ucontext.h>
#include <unordered_map>
namespace {
ucontext_t mainCtx, ctx[2]; char stacks[2][256 * 1024];
int running = -1; bool fin[2]; long hooks, sinceSwitch, points; bool hung;
std::vector<long> sw;            // preempt at these points
size_t swi; uintptr_t lo, hi;
std::vector<std::pair<int, int>> recs; std::vector<int> pat; long total;
void jump(int to) { int me = running; sinceSwitch = 0; running = to; swapcontext(&ctx[me], to < 0 ? &mainCtx : &ctx[to]); }
void other() { int o = 1 - running; if (!fin[o]) jump(o); else sinceSwitch = 0; }
pthread_t mainThread;
__attribute__((no_sanitize("thread"), noinline)) void access(void *p) {
    if (running < 0 || (uintptr_t)p < lo || (uintptr_t)p >= hi || !pthread_equal(pthread_self(), mainThread)) return;
    if (++hooks > 20000) { hung = true; jump(-1); }
    ++points;
    if (swi < sw.size() && points == sw[swi]) { ++swi; other(); return; }
    if (++sinceSwitch > 80) other();        // a spinning thread eventually lets the other one run
}
void producer() {
    for (auto &r : recs) { char *p = reserve(r.first, true); if (!p) break; commit(p, r.second); }
    fin[0] = true; if (!fin[1]) jump(1); jump(-1);
}
void consumer() {
    long got = 0; size_t i = 0; bool bad = false;
    while (got < total && !bad) {
        uint64_t av; char *p = peek(av);
        if (!p) { bad = true; break; }
        if (av == 0) other();
        while (av > 0) {
            int k = pat[i++ % pat.size()];
            if (k == 0) break;
            if ((uint64_t)k > av) k = (int)av;
            consume(p, av, k); p += k; av -= k; got += k;
        }
    }
    vs_emit("{\"op\":\"end\",\"partial\":%s}", bad || !fin[0] ? "true" : "false");
    fin[1] = true; if (!fin[0]) jump(0); jump(-1);
}
long runOnce(int first) {
    out = "["; nextByte = 0; fin[0] = fin[1] = hung = false; hooks = sinceSwitch = points = 0; swi = 0;
    sb = new SB(1); lo = (uintptr_t)sb; hi = lo + sizeof(SB);
    for (int i = 0; i < 2; ++i) {
        getcontext(&ctx[i]); ctx[i].uc_stack.ss_sp = stacks[i]; ctx[i].uc_stack.ss_size = sizeof stacks[i]; ctx[i].uc_link = nullptr;
        makecontext(&ctx[i], i ? consumer : producer, 0);
    }
    running = first;
    swapcontext(&mainCtx, &ctx[first]);
    running = -1;
    if (hung) vs_emit("{\"op\":\"bad\",\"k\":\"hang\"}");
    out += "]";
    delete sb;
    return points;
}
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { access(p); } void __tsan_write##n(void *p) { access(p); } \
  void __tsan_unaligned_read##n(void *p) { access(p); } void __tsan_unaligned_write##n(void *p) { access(p); } \
  void __tsan_volatile_read##n(void *p) { access(p); } void __tsan_volatile_write##n(void *p) { access(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long) { access(p); }
void __tsan_write_range(void *p, long) { access(p); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define AT(n, T) \
 T __tsan_atomic##n##_load(const volatile T *a, int) { access((void *)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
 void __tsan_atomic##n##_store(volatile T *a, T v, int) { access((void *)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { access((void *)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { access((void *)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { access((void *)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { access((void *)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { access((void *)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { access((void *)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((void *)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access((void *)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((void *)a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
// input lines: <seed> <max runs> <scenario>; output: one line per distinct trace
int main() {
    char line[1 << 16]; mainThread = pthread_self();
    while (fgets(line, sizeof line, stdin)) {
        unsigned long seed; long limit; int used;
        if (sscanf(line, "%lu %ld %n", &seed, &limit, &used) < 2) continue;
        std::string s = line + used; size_t semi = s.find(';');
        recs.clear(); pat.clear(); total = 0;
        char *c = strdup(s.substr(0, semi).c_str());
        for (char *t = strtok(c, " \n"); t; t = strtok(nullptr, " \n")) { int n = 0, m = 0; if (sscanf(t, "%d.%d", &n, &m) == 2) recs.push_back({n, m}), total += m; }
        char *d = strdup(s.substr(semi + 1).c_str());
        for (char *t = strtok(d, " \n"); t; t = strtok(nullptr, " \n")) pat.push_back(atoi(t));
        std::unordered_map<size_t, int> seen; long runs = 0, exhaustive = 0;
        auto one = [&](int first) {
            ++runs;
            long p = runOnce(first);
            size_t h = std::hash<std::string>()(out);
            if (seen[h]++ == 0) {
                printf("T %d", first); for (long x : sw) printf(" %ld", x); printf("|%s\n", out.c_str());
            }
            return p;
        };
        srand48(seed);
        for (int first = 0; first < 2; ++first) {
            sw.clear(); long n = one(first);
            for (long a = 1; a <= n; ++a) {
                sw = {a}; long n1 = one(first);
                for (long b = a + 1; b <= n1 && runs < limit * (first + 1) / 3; ++b) { sw = {a, b}; one(first); exhaustive = 2; }
            }
            while (runs < limit * (first + 1) / 2) {
                int k = 2 + lrand48() % 4; std::vector<long> v;
                for (int i = 0; i < k; ++i) v.push_back(1 + lrand48() % (n + 20));
                std::sort(v.begin(), v.end()); sw = v; one(first);
            }
        }
        printf("D %ld\n", runs); fflush(stdout);
        free(c); free(d);
    }
}
#elif defined(QSCRIPT)
static void script(char *line) {
    char *res = nullptr; int resN = 0; char *pk = nullptr; uint64_t av = 0;
    for (char *t = strtok(line, " \n"); t; t = strtok(nullptr, " \n")) {
        int k = atoi(t + 1);
        switch (*t) {
            case 'R': if (!res) { res = reserve(k, false); resN = k; } break;
            case 'C': if (res && k <= resN) { commit(res, k); res = nullptr; } break;
            case 'P': pk = peek(av); break;
            case 'X': if ((uint64_t)k > av) k = (int)av; if (k > 0) { consume(pk, av, k); pk += k; av -= k; } break;
        }
    }
    // drain
    for (int i = 0; i < 4; ++i) { pk = peek(av); if (av) consume(pk, av, (int)av); }
    vs_emit("{\"op\":\"end\",\"partial\":false}");
}
int main() {
    char line[1 << 16]; int id = 0;
    while (fgets(line, sizeof line, stdin)) {
        fflush(stdout);
        int fd[2]; if (pipe(fd)) return 3;
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            sb = new SB(1);
            out = "[";
            std::set_terminate([] { _exit(9); });
            freopen("/dev/null", "w", stderr);
            alarm(20);
            script(line);
            out += "]\n";
            for (size_t o = 0; o < out.size();) { ssize_t w = write(fd[1], out.data() + o, out.size() - o); if (w <= 0) break; o += w; }
            _exit(0);
        }
        close(fd[1]);
        std::string got; char b[65536]; ssize_t n;
        while ((n = read(fd[0], b, sizeof b)) > 0) got.append(b, n);
        close(fd[0]);
        int st = 0; waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) printf("[{\"op\":\"bad\",\"k\":\"crash\"}]\n");
        else fwrite(got.data(), 1, got.size(), stdout);
        ++id;
    }
}
#else
// scenario: "<producer records n.m ...> ; <consumer pattern k k ...>"
int main() {
    vs_off();
    std::vector<std::pair<int, int>> recs; std::vector<int> pat; long total = 0;
    {
        std::string s = vs_scenario(); size_t semi = s.find(';');
        char *c = strdup(s.substr(0, semi).c_str());
        for (char *t = strtok(c, " "); t; t = strtok(nullptr, " ")) { int n = 0, m = 0; if (sscanf(t, "%d.%d", &n, &m) == 2) recs.push_back({n, m}), total += m; }
        char *d = strdup(s.substr(semi + 1).c_str());
        for (char *t = strtok(d, " "); t; t = strtok(nullptr, " ")) pat.push_back(atoi(t));
        if (pat.empty()) pat.push_back(1 << 20);
    }
    sb = new SB(1);
    vs_on();
    std::thread prod([&] {
        for (auto &r : recs) { char *p = reserve(r.first, true); if (!p) break; commit(p, r.second); }
    });
    long got = 0; size_t i = 0; int empties = 0; (void)empties; bool bad = false;
    while (got < total && !bad) {
        uint64_t av; char *p = peek(av);
        if (!p) { bad = true; break; }
#ifdef QFREE
        if (av == 0) { if (++empties > 30) usleep(20); else for (volatile int w = rand() % 400; w > 0; w = w - 1) {} } else empties = 0;
#endif
        while (av > 0) {
            int k = pat[i++ % pat.size()];
            if (k == 0) break;                      // look again without releasing
            if ((uint64_t)k > av) k = (int)av;
            consume(p, av, k); p += k; av -= k; got += k;
        }
    }
    prod.join();
    vs_emit("{\"op\":\"end\",\"partial\":%s}", bad ? "true" : "false");
    return 0;
}
#endif
