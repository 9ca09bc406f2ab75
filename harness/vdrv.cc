// Driver: executes a scenario (threads of operations) against the public
// NanoLog API and reports call/return events.  Works both under the controlled
// scheduler (vsched.cc) and free-running (vfree.cc).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ios>
#include <fcntl.h>
#include <string>
#include <sys/stat.h>
#include <thread>
#include <vector>
#include "NanoLogCpp17.h"
#include "vsched.h"
using namespace NanoLog::LogLevels;

namespace {
typedef void (*SiteFn)(int t, int k, const char *s, char *txt, size_t cap, int &line, int &lvl, bool doLog);
// The expected text is what snprintf produces from the same format and arguments.
#define SITE(NAME, LVL, FMT, ...) \
    __attribute__((noinline)) void NAME(int t, int k, const char *s, char *txt, size_t cap, int &line, int &lvl, bool doLog) { \
        (void)t; (void)k; (void)s; line = __LINE__; lvl = (int)LVL; \
        if (!doLog) { vs_off(); snprintf(txt, cap, FMT, __VA_ARGS__); vs_on(); return; } \
        NANO_LOG(LVL, FMT, __VA_ARGS__); \
    }
SITE(s0, NOTICE, "m %d.%d", t, k)
SITE(s1, WARNING, "m %d.%d str=%s", t, k, s)
SITE(s2, ERROR, "m %d.%d %ld [%s] %u", t, k, (long)-k * 1000003L, s, (unsigned)(t * 77777u))
SITE(s3, DEBUG, "m %d.%d dbg %s", t, k, s)
SITE(s4, NOTICE, "m %d.%d %lf %s tail", t, k, t + k / 4.0, s)
SITE(s5, NOTICE, "m %d.%d the quick brown fox jumps over the lazy dog and then some more text to make this static string long: %s", t, k, s)
SITE(s6, WARNING, "m %d.%d %*d|%.*s|", t, k, 5 + k % 7, k, 3, s)
SITE(s7, ERROR, "m %d.%d %c %p %hhd %llx", t, k, 'a' + k % 26, (void *)(uintptr_t)(0x1000 + k), (signed char)k, (unsigned long long)k << 40)
SITE(s8, NOTICE, "m %d.%d padding padding padding padding padding padding padding padding padding padding padding padding padding padding padding padding %s", t, k, s)
SITE(s9, NOTICE, "m %d.%d %s+%s", t, k, s, s)
SITE(s10, DEBUG, "m %d.%d dbg2", t, k)
SITE(s11, ERROR, "m %d.%d %%literal%% %s", t, k, s)
SiteFn sites[] = {s0, s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11};
const int NSITES = sizeof(sites) / sizeof(sites[0]);

std::vector<std::vector<std::string>> prog;
std::vector<std::thread> thr;
char curFile[64] = "compressedLog";

void runOps(int t);
void logOp(int t, int &k, int site, int len) {
    char str[20000], txt[20480]; int line = 0, lvl = 0;
    if (len > 19000) len = 19000;
    ++k;
    for (int i = 0; i < len; ++i) str[i] = (char)('a' + (t * 31 + k * 7 + i) % 26);
    str[len] = 0;
    site %= NSITES;
    sites[site](t, k, str, txt, sizeof txt, line, lvl, false);
    vs_emit("{\"op\":\"lc\",\"t\":%d,\"k\":%d,\"line\":%d,\"lvl\":%d,\"len\":%d,\"x\":\"%s\"}", t, k, line, lvl, len, txt);
    sites[site](t, k, str, txt, sizeof txt, line, lvl, true);
    memset(str, '#', sizeof str);      // the caller's memory changes right away
    vs_emit("{\"op\":\"lr\",\"t\":%d,\"k\":%d}", t, k);
}
// bytes of a log file that belong to no entry (-1: not understood)
long padding(const char *file) {
    using namespace NanoLogInternal::Log;
    FILE *f = fopen(file, "rb");
    if (!f) return 0;
    std::string s; char b[4096]; size_t n, p = 0; long pad = 0;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    s.append(64, '\0');
    for (n = s.size() - 64; p < n;) switch (s[p] & 3) {
        case EntryType::CHECKPOINT: { Checkpoint c; memcpy(&c, &s[p], sizeof c); p += sizeof c + c.newMetadataBytes; break; }
        case EntryType::BUFFER_EXTENT: { BufferExtent e; memcpy(&e, &s[p], sizeof e); p += e.length; if (e.length < sizeof e) return -1; break; }
        case EntryType::LOG_MSGS_OR_DIC: { DictionaryFragment d; memcpy(&d, &s[p], sizeof d); p += d.newMetadataBytes; if (d.newMetadataBytes < sizeof d) return -1; break; }
        default: ++p; ++pad;
    }
    return p == n ? pad : -1;
}
// what the statistics say, next to what the files and the scheduler know
void stats(int t) {
    long before = vs_ios() < 0 ? 1000 : vs_live();
    std::string s = NanoLog::getStats(), h = NanoLogInternal::RuntimeLogger::getHistograms();
    vs_off();
    long after = vs_live();
    long events = -1, in = -1, out = -1, pad = -1, flushes = -1, size = 0, waste = 0, id, n, blocked;
    const char *p = strstr(s.c_str(), "Wrote "); if (p) sscanf(p, "Wrote %ld events", &events);
    p = strstr(s.c_str(), "There were "); if (p) sscanf(p, "There were %ld file flushes", &flushes);
    p = strstr(s.c_str(), "x ("); if (p) sscanf(p, "x (%ld bytes in, %ld bytes out, %ld pad bytes)", &in, &out, &pad);
    for (auto f : {"compressedLog", "f1", "f2", "f3"}) { struct stat st; if (!stat(f, &st)) size += st.st_size; long w = padding(f); waste = w < 0 || waste < 0 ? -1 : waste + w; }
    std::string al; long peeks = 0, a, b, c;
    for (p = h.c_str(); (p = strchr(p, '\n')); ++p) if (sscanf(p, "\n\t%ld - %ld%%: %ld", &a, &b, &c) == 3) peeks += c;
    for (p = h.c_str(); (p = strstr(p, "Thread ")); ++p)
        if (sscanf(p, "Thread %ld: Allocations : %ld Times Blocked : %ld", &id, &n, &blocked) == 3) {
            long slow = blocked;       // detailed statistics: how often the producer was blocked for how long
#ifdef RECORD_PRODUCER_STATS
            const char *q = strstr(p + 1, "Thread "), *d = strstr(p, "AvgBlock (ns) : ");
            slow = d && (!q || d < q) ? 0 : -1;
            for (d = p; slow >= 0 && (d = strchr(d, '\n')) && (!q || d < q); ++d) if (sscanf(d, "\n\t\t%ld - %ld ns: %ld", &a, &b, &c) == 3) slow += c;
#endif
            al += (al.empty() ? "[" : ",[") + std::to_string(id) + "," + std::to_string(n) + "," + std::to_string(blocked) + "," + std::to_string(slow) + "]";
        }
    vs_on();
    vs_emit("{\"op\":\"stats\",\"t\":%d,\"events\":%ld,\"out\":%ld,\"pad\":%ld,\"waste\":%ld,\"flushes\":%ld,\"ios\":%ld,\"size\":%ld,\"block\":%d,\"peeks\":%ld,\"live\":[%ld,%ld],\"alloc\":[%s]}",
            t, events, out, pad, waste, flushes, vs_ios(), size, (NanoLogConfig::FILE_PARAMS & O_DIRECT) ? 512 : 1, peeks, after, before, al.c_str());
}
void runOps(int t) {
    int k = 0;
    char file[64]; snprintf(file, sizeof file, "%s", curFile);
    for (auto &o : prog[t]) {
        const char *a = o.c_str() + 1;
        switch (o[0]) {
            case 'L': { int s = 0, l = 0; sscanf(a, "%d.%d", &s, &l); logOp(t, k, s, l); break; }
            case 'R': { int n = 0, s = 0, l = 0; sscanf(a, "%dx%d.%d", &n, &s, &l); for (int i = 0; i < n; ++i) logOp(t, k, s, l); break; }
            case 'S':
                vs_emit("{\"op\":\"sc\",\"t\":%d}", t);
                NanoLog::sync();
                vs_snapPath(file);
                vs_emit("{\"op\":\"sr\",\"t\":%d}", t);
                break;
            case 'N': stats(t); break;
            case 'P': NanoLog::preallocate(); break;
            case 'V': {
                NanoLog::setLogLevel((NanoLog::LogLevels::LogLevel)atoi(a));
                vs_emit("{\"op\":\"lvl\",\"t\":%d,\"v\":%d,\"got\":%d}", t, atoi(a), (int)NanoLog::getLogLevel());
                break;
            }
            case 'C': { int i = atoi(a); thr[i] = std::thread(runOps, i); break; }
            case 'J': { int i = atoi(a); if (thr[i].joinable()) thr[i].join(); vs_emit("{\"op\":\"join\",\"t\":%d}", i); break; }
            case 'Y': for (int i = 0; i < 3; ++i) vs_point(); break;
            case 'Q': vs_emit("{\"op\":\"live\",\"t\":%d,\"n\":%ld}", t, vs_live()); break;
            case 'F': {
                char name[64]; int n = atoi(a);
                if (n == 7) snprintf(name, sizeof name, "no_such_dir/f");
                else if (n == 8) snprintf(name, sizeof name, ".");
                else if (n == 0) snprintf(name, sizeof name, "compressedLog");
                else snprintf(name, sizeof name, "f%d", n);
                vs_emit("{\"op\":\"fc\",\"t\":%d,\"f\":\"%s\"}", t, name);
                bool ok = true;
                try { NanoLog::setLogFile(name); } catch (std::ios_base::failure &) { ok = false; }
                vs_snapPath(file);
                if (ok) { snprintf(file, sizeof file, "%s", name); snprintf(curFile, sizeof curFile, "%s", name); }
                vs_emit("{\"op\":\"fr\",\"t\":%d,\"f\":\"%s\",\"ok\":%s}", t, name, ok ? "true" : "false");
                break;
            }
        }
    }
}
}  // namespace

int main() {
    vs_off();
    std::vector<std::string> cur; std::string tok;
    for (const char *p = vs_scenario();; ++p) {
        if (*p == ' ' || *p == ';' || !*p) {
            if (!tok.empty()) cur.push_back(tok), tok.clear();
            if (*p == ';' || !*p) prog.push_back(cur), cur.clear();
            if (!*p) break;
        } else tok += *p;
    }
    thr.resize(prog.size());
    vs_watch(NanoLogConfig::STAGING_BUFFER_SIZE, NanoLogConfig::STAGING_BUFFER_SIZE + 4096);
    vs_on();
    runOps(0);
    for (size_t i = 0; i < thr.size(); ++i) if (thr[i].joinable()) { thr[i].join(); vs_emit("{\"op\":\"join\",\"t\":%d}", (int)i); }
    vs_emit("{\"op\":\"ret\"}");
    return 0;
}
