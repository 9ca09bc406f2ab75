// vfree: the vs_* interface without a controlled scheduler: real threads, real
// AIO, real time, code compiled as the library is.  Each job runs in its own
// process; events are recorded in one global order.
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "vsched.h"
namespace {
char *rec; size_t recCap = 64 << 20; size_t *recLen;
char scen[8192]; char runId[64]; bool child;
pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
void vemit(const char *fmt, va_list ap) {
    size_t n = *recLen;
    int w = vsnprintf(rec + n, recCap - n - 1, fmt, ap);
    if (w > 0 && n + w < recCap - 1) *recLen = n + w;
}
void emit(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vemit(fmt, ap); va_end(ap); }
}
void vs_emit(const char *fmt, ...) {
    pthread_mutex_lock(&mu); emit(","); va_list ap; va_start(ap, fmt); vemit(fmt, ap); va_end(ap); pthread_mutex_unlock(&mu);
}
void vs_snap(int) {}
void vs_snapPath(const char *path) {
    pthread_mutex_lock(&mu); struct stat st;
    if (!stat(path, &st)) emit(",{\"op\":\"snap\",\"f\":\"%s\",\"n\":%ld}", path, (long)st.st_size);
    pthread_mutex_unlock(&mu);
}
const char *vs_scenario() { return scen; }
int vs_self() { return 0; }
long vs_live() { return 0; }
long vs_ios() { return -1; }
void vs_point() { struct timespec ts = {0, 50000}; nanosleep(&ts, nullptr); }
void vs_watch(size_t, size_t) {}
void vs_off() {}
void vs_on() {}
uint64_t vs_rnd() { return 0; }
void vs_verdict(const char *) {}
__attribute__((destructor(101))) static void atEnd() {
    if (child) emit("],\"verdict\":\"ok\",\"steps\":0,\"shared\":0,\"switches\":0,\"ios\":0}\n");
}
static void onSig(int s) { emit(",{\"op\":\"crash\",\"sig\":%d}],\"verdict\":\"crash\",\"steps\":0,\"shared\":0,\"switches\":0,\"ios\":0}\n", s); _exit(0); }
__attribute__((constructor(101))) static void forkServer(int argc, char **argv, char **) {
    if (argc < 2) { fprintf(stderr, "usage: %s jobfile [pos mod]\n", argv[0]); _exit(3); }
    FILE *jobs = fopen(argv[1], "r");
    if (!jobs) { perror(argv[1]); _exit(3); }
    int limit = getenv("VF_LIMIT_S") ? atoi(getenv("VF_LIMIT_S")) : 30;
    rec = (char *)mmap(nullptr, recCap + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    recLen = (size_t *)rec; rec += 64; recCap -= 128;
    int pos = argc > 2 ? atoi(argv[2]) : 0, mod = argc > 3 ? atoi(argv[3]) : 1;
    char *line = nullptr; size_t cap = 0; long no = 0;
    int devnull = open("/dev/null", O_WRONLY);
    while (getline(&line, &cap, jobs) > 0) {
        if (no++ % mod != pos) continue;
        char *bar = strchr(line, '|'); if (!bar) _exit(3);
        sscanf(line, "%63s", runId); snprintf(scen, sizeof scen, "%s", bar + 2);
        size_t l = strlen(scen); if (l && scen[l - 1] == '\n') scen[l - 1] = 0;
        const char *fs[] = {"compressedLog", "f1", "f2", "f3"};
        for (auto f : fs) unlink(f);
        *recLen = 0;
        pid_t pid = fork();
        if (pid == 0) {
            signal(SIGSEGV, onSig); signal(SIGABRT, onSig); signal(SIGBUS, onSig); signal(SIGFPE, onSig); signal(SIGILL, onSig);
            dup2(devnull, 2); dup2(devnull, 1); fclose(jobs);
            emit("{\"id\":\"%s\",\"ev\":[{\"op\":\"begin\"}", runId);
            child = true;
            return;
        }
        int st = 0; bool dead = false;
        for (int i = 0; i < limit * 1000; ++i) { pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) { dead = true; break; }
            struct timespec ts = {0, 1000000L}; syscall(SYS_nanosleep, &ts, nullptr); }
        if (!dead) { kill(pid, SIGKILL); waitpid(pid, &st, 0); emit("],\"verdict\":\"stuck\",\"steps\":0,\"shared\":0,\"switches\":0,\"ios\":0}\n"); }
        else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) emit("],\"verdict\":\"died\",\"st\":%d,\"steps\":0,\"shared\":0,\"switches\":0,\"ios\":0}\n", st);
        printf("R %zu %zu\n", *recLen, strlen(line)); fwrite(rec, 1, *recLen, stdout); fwrite(line, 1, strlen(line), stdout);
        for (auto f : fs) { FILE *g = fopen(f, "rb"); if (!g) continue; static char big[1 << 26]; size_t n = fread(big, 1, sizeof big, g); fclose(g);
            printf("F %s %zu\n", f, n); fwrite(big, 1, n, stdout); }
        printf("E\n");
    }
    fflush(stdout);
    _exit(0);
}
