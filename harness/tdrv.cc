// Encodes messages with chosen timestamps (and reference points) with the real Encoder, decodes them with the real
// Decoder and reports timestamps and rendered times.  One case per line:
//   S <flavour> <[n]hex> ...                       timestamps; n: in another call (every other time for another thread)
//   R <flavour> <TZ> <day> <sec> <rate> <day>.<sec>.<ns>.<x> ...   reference point, ticks per second, offsets
// flavours: c C++17 entries, p preprocessor entries, d preprocessor entries with the dictionary in the file
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#define EXPOSE_PRIVATES
#include "Log.h"
#include "NanoLogCpp17.h"
#include "GeneratedCode.h"
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;
namespace {
std::string limbs(uint64_t x) { char b[60]; snprintf(b, sizeof b, "[%u,%u,%u,%u]", (unsigned)(x >> 48), (unsigned)(x >> 32) & 65535, (unsigned)(x >> 16) & 65535, (unsigned)x & 65535); return b; }
std::vector<StaticLogInfo> sites;
struct Stamp { uint64_t t; bool n; };
std::string file(char fl, const std::vector<Stamp> &v, uint64_t rdtsc, time_t unixTime, double rate) {
    static char buf[1 << 16];
    Encoder enc(buf, sizeof buf, false, fl == 'd'); uint32_t known = 0, id = 0;
    Checkpoint *ck = reinterpret_cast<Checkpoint *>(buf); ck->rdtsc = rdtsc; ck->unixTime = unixTime; ck->cyclesPerSecond = rate;
    if (fl == 'c') enc.encodeNewDictionaryEntries(known, sites);
    else while (strcmp(GeneratedFunctions::logId2Metadata[id].fmtString, "k0 plain")) ++id;
    size_t i = 0; int calls = 0;
    while (i < v.size()) {
        std::string in;
        do { UncompressedEntry e; e.fmtId = id; e.timestamp = v[i].t; e.entrySize = sizeof e; in.append((char *)&e, sizeof e); ++i; } while (i < v.size() && !v[i].n);
        uint64_t n = 0; long r = fl == 'c' ? enc.encodeLogMsgs(&in[0], in.size(), 1 + calls / 2, calls == 0, sites, &n) : enc.encodeLogMsgs(&in[0], in.size(), 1 + calls / 2, calls == 0, &n);
        if (r != (long)in.size()) exit(3);
        ++calls;
    }
    std::string out(buf, enc.getEncodedBytes());
    FILE *f = fopen("td.log", "wb"); fwrite(out.data(), 1, out.size(), f); fclose(f);
    return out;
}
struct Shown { uint64_t ts; int y, mo, d, h, mi, s; long ns; int digits; };
std::vector<Shown> read() {
    std::vector<Shown> out; Decoder dec; if (!dec.open("td.log")) return out;
    LogMessage lm; char *mem = nullptr; size_t len = 0; FILE *o = open_memstream(&mem, &len);
    while (out.size() < 1000) {
        rewind(o); fflush(o); if (mem) memset(mem, 0, len);
        if (!dec.getNextLogStatement(lm, o)) break;
        fflush(o); Shown s = {}; s.ts = lm.getTimestamp(); int at = 0;
        if (sscanf(mem, "%d-%d-%d %d:%d:%d.%n", &s.y, &s.mo, &s.d, &s.h, &s.mi, &s.s, &at) == 6 && at) { char *e; s.ns = strtol(mem + at, &e, 10); s.digits = (int)(e - (mem + at)); if (mem[at] == '-' || *e != ' ') s.digits = -1; if (s.ns > 999999999 || s.ns < 0) s.ns = 999999999; }
        out.push_back(s);
    }
    fclose(o); free(mem);
    return out;
}
void doCase(const std::string &line) {
    std::istringstream in(line); std::string kind, tok; char fl; in >> kind >> fl; std::string ev;
    if (kind == "S") {
        std::vector<Stamp> v; while (in >> tok) { bool n = tok[0] == 'n'; v.push_back({std::stoull(tok.substr(n), nullptr, 16), n}); }
        file(fl, v, 12345, 1700000000, 1e9); std::string a, b;
        for (auto &x : v) a += (a.empty() ? "" : ",") + limbs(x.t);
        for (auto &x : read()) b += (b.empty() ? "" : ",") + limbs(x.ts);
        printf("[{\"op\":\"seq\",\"sent\":[%s],\"got\":[%s]}]\n", a.c_str(), b.c_str());
        return;
    }
    std::string tz, rate; long day, sec; in >> tz >> day >> sec >> rate; setenv("TZ", tz.c_str(), 1); tzset();
    static const char *names[] = {"UTC0", "UTC", "IST-5:30", "IST", "NPT-5:45", "NPT", "WEST11", "WEST", "EST5EDT,M3.2.0,M11.1.0", "EST", "AEST-10AEDT,M10.1.0,M4.1.0", "AEST"};
    const char *zone = "?"; for (int i = 0; i < 12; i += 2) if (tz == names[i]) zone = names[i + 1];
    const uint64_t base = 1ul << 40; long double r = strtold(rate.c_str(), nullptr); std::vector<Stamp> v; struct O { long d, s, n, x; }; std::vector<O> os;
    while (in >> tok) {
        O o; if (sscanf(tok.c_str(), "%ld.%ld.%ld.%ld", &o.d, &o.s, &o.n, &o.x) != 4) exit(3);
        os.push_back(o); long double secs = o.d * 86400.0L + o.s;
        v.push_back({base + (uint64_t)((int64_t)llroundl(secs * r + o.n * (r / 1e9L)) + o.x), v.size() % 3 == 2});
    }
    file(fl, v, base, day * 86400 + sec, (double)r); auto got = read();
    printf("[{\"op\":\"count\",\"want\":%zu,\"got\":%zu}", os.size(), got.size());
    for (size_t i = 0; i < os.size() && i < got.size(); ++i) {
        auto &g = got[i];
        printf(",{\"op\":\"show\",\"zone\":\"%s\",\"rate\":\"%s\",\"ref\":{\"day\":%ld,\"sec\":%ld,\"ns\":0},\"off\":{\"day\":%ld,\"sec\":%ld,\"ns\":%ld},\"x\":%ld,\"digits\":%d,\"got\":[%d,%d,%d,%d,%d,%d,%ld]}",
               zone, rate.c_str(), day, sec, os[i].d, os[i].s, os[i].n, os[i].x, g.digits, g.y, g.mo, g.d, g.h, g.mi, g.s, g.ns);
    }
    printf("]\n");
}
}
int main() {
    setenv("TZ", "UTC0", 1); freopen("/dev/null", "w", stderr);
    sites.push_back(StaticLogInfo(&compress<>, "egen.cc", 7, 3, "k0 plain", 0, 0, nullptr));
    std::string line;
    while (std::getline(std::cin, line)) {
        fflush(stdout); pid_t c = fork();
        if (!c) { alarm(60); doCase(line); fflush(stdout); _exit(0); }
        int st; waitpid(c, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { printf("@%d\n", st); fflush(stdout); }
    }
}
