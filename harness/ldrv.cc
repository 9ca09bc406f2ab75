// Materialises log-file layouts with the real Encoder and decodes them with the real Decoder.
// Input, one case per line:   [cuts] part part ...
//   K<n>            new execution, with a complete dictionary of n sites if n > 0
//   D<n>            dictionary fragment with n more sites
//   E<t>.<w>:s.ts,s.ts...   extent of thread t, w=1: starts a scan pass
//   X<t>.<w>:...    the same, one string made so long that the extent has the largest possible size (except with +cut, +reuse)
//   P<n>            n zero bytes
// Flags before the parts: "+cut" decode every prefix, "+reuse" also decode with a used decoder.
// Output: one JSON object per line.
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#define EXPOSE_PRIVATES
#include "Log.h"
#include "NanoLogCpp17.h"
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;

namespace {
const long BASE = 1000000000L;       // unix time of execution 0
long unixOf(int e) { return BASE + 1000L * e; }
uint64_t clockOf(int e) { return 50000ull * (unsigned)((e * 7) % 5); }     // clocks may restart at lower values
const int SCALE = 10;
const char *lv[] = {"(none)", "ERROR", "WARNING", "NOTICE", "DEBUG"};

bool plainSites = false;             // no long names
struct Site { std::string file, fmt; unsigned line; int level; bool str; };
const int MANY = 16;                 // sites from here on look alike except for their line
Site site(int e, int s) {
    char b[64]; Site x;
    if (s >= MANY) { x.file = "many.cc"; x.line = 100000 * e + s; x.level = 3; x.str = false; snprintf(b, sizeof b, "E%dS%d %%d", e, MANY); x.fmt = b; return x; }
    snprintf(b, sizeof b, "f%d_%d.cc", e, s); x.file = b;
    x.line = 100 * e + s + 1; x.level = 1 + (e + s) % 4; x.str = s % 2 == 1;
    snprintf(b, sizeof b, x.str ? "E%dS%d 100%%%% %%d [%%s]" : "E%dS%d %%d", e, s); x.fmt = b;
    if (!plainSites) {               // the reader keeps names and formats up to 10 KB in fixed buffers
        if (s == 4 || s == 7) x.file = std::string(s == 4 ? 30000 : 10239, 'f') + x.file;
        if (s == 5) x.fmt += std::string(12000, 'x');
        if (s == 7) x.fmt += std::string(10240 - 1 - x.fmt.size(), 'y');
        if (s == 8) x.fmt += std::string(60000, 'z');
    }
    return x;
}
std::string tailOf(int s) { if (plainSites || s >= MANY) return ""; Site x = site(0, s); size_t p = x.fmt.find(x.str ? "[%s]" : " %d"); return x.fmt.substr(p + (x.str ? 4 : 3)); }
std::map<int, size_t> filler;        // longer strings, to fill an extent
std::string strOf(int u) { auto f = filler.find(u); return std::string((u * 37) % 60 + (f == filler.end() ? 0 : f->second), 'a' + u % 26); }
std::string textOf(int e, int s, int u) {
    char b[64]; Site x = site(e, s);
    snprintf(b, sizeof b, x.str ? "E%dS%d 100%% %d [" : "E%dS%d %d", e, s < MANY ? s : MANY, u);
    return (x.str ? b + strOf(u) + "]" : std::string(b)) + tailOf(s);
}
struct Part { char k; int n = 0, t = 0; bool w = false, full = false; std::vector<std::pair<int, long>> m; size_t end = 0; };
std::vector<Part> parse(const std::string &line, bool &cut, bool &reuse) {
    std::vector<Part> v; std::istringstream in(line); std::string tok;
    cut = reuse = false;
    while (in >> tok) {
        if (tok == "+cut") { cut = true; continue; }
        if (tok == "+reuse") { reuse = true; continue; }
        Part p; p.k = tok[0];
        if (p.k == 'X') { p.k = tok[0] = 'E'; p.full = true; }
        if (p.k == 'E') {
            int w, n = 0; sscanf(tok.c_str(), "E%d.%d:%n", &p.t, &w, &n); p.w = w;
            const char *q = tok.c_str() + n;
            while (*q) { int s; long ts; int c = 0; sscanf(q, "%d.%ld%n", &s, &ts, &c); p.m.push_back({s, ts}); q += c; if (*q == ',') ++q; }
        } else p.n = atoi(tok.c_str() + 1);
        v.push_back(p);
    }
    return v;
}
std::string materialise(std::vector<Part> &parts, bool fill = false) {
    std::string out; int e = -1, u = 0; int known = 0;
    static char buf[1 << 23], other[1 << 23]; static char in[1 << 16];
    Encoder *enc = nullptr; std::vector<StaticLogInfo> dict; static std::vector<std::string> keep;
    keep.clear(); keep.reserve(1000); uint32_t dpos = 0; filler.clear();
    auto add = [&](int n) { for (int i = 0; i < n; ++i) {
        if ((int)dict.size() > MANY) { StaticLogInfo again = dict.back(); dict.push_back(StaticLogInfo(again.compressionFunction, again.filename, 100000 * e + (unsigned)dict.size(), again.severity, again.formatString, 1, 1, again.paramTypes)); continue; }
        Site x = site(e, (int)dict.size()); keep.push_back(x.file); const char *f = keep.back().c_str();
        keep.push_back(x.fmt); const char *g = keep.back().c_str();
        static const ParamType pt0[] = {ParamType::NON_STRING, ParamType::STRING_WITH_NO_PRECISION};
        if (x.str) dict.push_back(StaticLogInfo(&compress<int, const char *>, f, x.line, (uint8_t)x.level, g, 2, 1, pt0));
        else dict.push_back(StaticLogInfo(&compress<int>, f, x.line, (uint8_t)x.level, g, 1, 1, pt0));
    } };
    auto take = [&]() { char *b = nullptr; size_t len = 0;
        enc->swapBuffer(other, sizeof other, &b, &len); out.append(b, len);
        enc->swapBuffer(buf, sizeof buf); };
    for (Part &p : parts) {
        if (p.k == 'K') {
            delete enc; enc = new Encoder(buf, sizeof buf); ++e; dict.clear(); dpos = 0;
            size_t at = out.size(); take();
            Checkpoint ck; memcpy(&ck, &out[at], sizeof ck);
            ck.rdtsc = clockOf(e); ck.unixTime = unixOf(e); ck.cyclesPerSecond = 1e9;
            if (p.n) {
                static char mc[1 << 23]; char *q = mc, *last = nullptr;
                add(p.n); dpos = p.n;
                for (int i = 0; i < p.n; ++i) {
                    if (i > MANY) { size_t len = q - last; memcpy(q, last, len); last = q; q += len; ((FormatMetadata *)last)->lineNumber = 100000 * e + i; continue; }
                    Site x = site(e, i); last = q;
                    char *start = q; Decoder::createMicroCode(&q, x.fmt.c_str(), x.file.c_str(), x.line, (uint8_t)x.level);
                    // the preprocessor writes entries back to back, exactly as long as their lengths say
                    FormatMetadata *fm = (FormatMetadata *)start; q = start + sizeof(FormatMetadata) + fm->filenameLength;
                    for (int j = 0; j < fm->numPrintFragments; ++j) q += sizeof(PrintFragment) + ((PrintFragment *)q)->fragmentLength; }
                ck.newMetadataBytes = (uint32_t)(q - mc); ck.totalMetadataEntries = p.n;
                out.append(mc, q - mc);
            }
            memcpy(&out[at], &ck, sizeof ck);
        } else if (p.k == 'D') {
            add(p.n); enc->encodeNewDictionaryEntries(dpos, dict); take();
        } else if (p.k == 'P') out.append(p.n, '\0');
        else {
            // the last message with a string decides how long the extent is
            int before = u, longest = 0; size_t at = out.size();
          again:
            u = before; char *q = in;
            for (auto &m : p.m) {
                ++u; UncompressedEntry *ue = (UncompressedEntry *)q;
                char *a = ue->argData; memcpy(a, &u, 4); a += 4;
                if (site(e, m.first).str) { std::string s = strOf(u); uint32_t n = (uint32_t)s.size(); memcpy(a, &n, 4); a += 4; memcpy(a, s.data(), n); a += n; }
                if (site(e, m.first).str) longest = u;
                ue->fmtId = m.first; ue->entrySize = (uint32_t)(a - q); ue->timestamp = clockOf(e) + SCALE * m.second;
                q = a;
            }
            uint64_t cnt = 0; long r = enc->encodeLogMsgs(in, q - in, p.t, p.w, dict, &cnt);
            if (r != q - in) { fprintf(stderr, "encoder took %ld of %ld bytes\n", r, (long)(q - in)); exit(3); }
            take();
            const size_t room = NanoLogConfig::STAGING_BUFFER_SIZE / 4 * 3 - (before % 3 == 2 ? before % 5 : 0), got = out.size() - at;
            // (the runtime encodes at most half a staging buffer per extent; a message can grow by half)
            if (fill && p.full && longest && got < room && !filler.count(longest)) { filler[longest] = room - got; out.resize(at); goto again; }
        }
        p.end = out.size();
    }
    delete enc;
    return out;
}

struct Out { std::string m; long ret = 0, cnt = -1; int marks = 0; bool endok = true; bool opened = true; long n = 0;
    bool operator==(const Out &o) const { return m == o.m && marks == o.marks && ret == o.ret && cnt == o.cnt && endok == o.endok && opened == o.opened; } };

// one rendered line; u = 0 if it is not a message of this family
void parseLine(const std::string &s, int e, Out &o) {
    int u = 0, t = -1, st = -1; long ts = -1;
    int Y, M, D, h, mi, se, n1 = 0; char nan[32], level[32]; static char file[60000]; unsigned line; unsigned tid; int n = 0; int de = -1, ds = -1;
    int k = sscanf(s.c_str(), "%d-%d-%d %d:%d:%d.%31[0-9] %59999[^:]:%u %31[A-Z()a-z][%u]: %n", &Y, &M, &D, &h, &mi, &se, nan, file, &line, level, &tid, &n);
    if (k == 11 && n > 0) {
        std::string text = s.substr(n); t = (int)tid;
        if (sscanf(text.c_str(), "E%dS%d 100%% %d", &de, &ds, &u) != 3) sscanf(text.c_str(), "E%dS%d %d", &de, &ds, &u);
        struct tm tm; memset(&tm, 0, sizeof tm); tm.tm_year = Y - 1900; tm.tm_mon = M - 1; tm.tm_mday = D; tm.tm_hour = h; tm.tm_min = mi; tm.tm_sec = se;
        if (ds >= 0 && de == e) {
            if (ds == MANY) ds = (int)line - 100000 * e;
            Site x = site(e, ds);
            if (x.file == file && x.line == line && !strcmp(lv[x.level], level) && textOf(e, ds, u) == text) st = ds;
        }
        if (strlen(nan) == 9) { long sec = timegm(&tm) - unixOf(e); long ns = sec * 1000000000L + atol(nan); if (ns % SCALE == 0 && ns / SCALE < 1000000000L && ns >= 0) ts = ns / SCALE; }
    }
    char b[128]; snprintf(b, sizeof b, "%s[%d,%d,%d,%d,%ld]", o.m.empty() ? "" : ",", u, e, t, st, ts); o.m += b; ++o.n;
}
void parseAll(const char *mem, size_t len, Out &o) {
    std::string all(mem, len); size_t p = 0; int e = 0;
    while (p < all.size()) {
        size_t q = all.find("\r\n", p); if (q == std::string::npos) q = all.size();
        std::string l = all.substr(p, q - p); p = q + 2;
        if (l.empty()) continue;
        if (l[0] == '#') {
            if (l.find("New execution") != std::string::npos) ++e;
            size_t c = l.find("printing "); if (c != std::string::npos) o.cnt = atol(l.c_str() + c + 9);
            continue;
        }
        parseLine(l, e, o);
    }
    o.marks = e;
}
void put(const char *path, const std::string &d) { FILE *f = fopen(path, "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f); }
const char *P1, *P2;

Out run(Decoder &dec, const char *path, char mode) {
    Out o; char *mem = nullptr; size_t len = 0;
    o.opened = dec.open(path);
    FILE *f = open_memstream(&mem, &len);
    if (o.opened) {
        if (mode == 'u') o.ret = dec.decompressUnordered(f);
        else if (mode == 'c') o.ret = dec.decompressTo(f);
        else {
            LogMessage msg; long n = 0; std::string args;
            while (dec.getNextLogStatement(msg, f)) {
                ++n; fflush(f);
                char b[64]; snprintf(b, sizeof b, "%d.%u.%lu ", msg.valid() ? msg.get<int>(0) : -1, msg.getLogId(), (unsigned long)msg.getTimestamp()); args += b;
                if (n > 100000) break;
            }
            o.ret = n;
            o.endok = !msg.valid() && !dec.getNextLogStatement(msg, f) && !msg.valid();
            fflush(f);
            // the message objects have to agree with the text
            Out p; parseAll(mem, len, p); std::string want; const char *q = p.m.c_str();
            while (*q) { int u, e, t, s; long ts; int c = 0; if (sscanf(q, "[%d,%d,%d,%d,%ld]%n", &u, &e, &t, &s, &ts, &c) != 5) break; q += c; if (*q == ',') ++q;
                char b[64]; snprintf(b, sizeof b, "%d.%d.%lu ", u, s, (unsigned long)(clockOf(e) + SCALE * ts)); want += b; }
            if (want != args) o.endok = false;
        }
    }
    fclose(f); parseAll(mem, len, o); free(mem);
    if (o.cnt < 0) o.cnt = o.n;
    return o;
}
std::string runJson(const char *name, long lo, long hi, const Out &o) {
    char b[200]; snprintf(b, sizeof b, "{\"mode\":\"%s\",\"lo\":%ld,\"hi\":%ld,\"opened\":%s,\"ret\":%ld,\"cnt\":%ld,\"marks\":%d,\"endok\":%s,\"m\":[", name, lo, hi,
             o.opened ? "true" : "false", o.ret, o.cnt, o.marks, o.endok ? "true" : "false");
    return b + o.m + "]}";
}
void doCase(const std::string &line, const std::string &prev, FILE *out) {
    bool cut, reuse, c2, r2; std::vector<Part> parts = parse(line, cut, reuse);
    plainSites = cut;
    std::string data = materialise(parts, !cut && !reuse);
    std::string j = "{\"parts\":[";
    for (size_t i = 0; i < parts.size(); ++i) {
        Part &p = parts[i]; char b[128];
        if (p.k == 'E') {
            snprintf(b, sizeof b, "%s{\"k\":\"ext\",\"t\":%d,\"w\":%s,\"end\":%zu,\"m\":[", i ? "," : "", p.t, p.w ? "true" : "false", p.end); j += b;
            for (size_t m = 0; m < p.m.size(); ++m) { snprintf(b, sizeof b, "%s[%d,%ld]", m ? "," : "", p.m[m].first, p.m[m].second); j += b; }
            j += "]}";
        } else { snprintf(b, sizeof b, "%s{\"k\":\"%s\",\"n\":%d,\"end\":%zu}", i ? "," : "", p.k == 'K' ? "ck" : p.k == 'D' ? "dic" : "pad", p.n, p.end); j += b; }
    }
    j += "],\"size\":" + std::to_string(data.size()) + ",\"runs\":[";
    fprintf(out, "%s", j.c_str()); fflush(out);
    bool first = true;
    auto emit = [&](const std::string &s) { fprintf(out, "%s%s", first ? "" : ",", s.c_str()); fflush(out); first = false; };
    long size = (long)data.size();
    const char *names[] = {"unord", "iter", "chrono"}; const char modes[] = "uic";
    for (int k = 0; k < 3; ++k) {
        if (!cut) { put(P1, data); Decoder d; emit(runJson(names[k], size, size, run(d, P1, modes[k]))); continue; }
        Out last; long lo = -1;
        for (long c = 0; c <= size; ++c) {
            put(P1, data.substr(0, c)); Out o; { Decoder d; o = run(d, P1, modes[k]); free(d.rawMetadata); }
            if (lo < 0) { last = o; lo = c; }
            else if (!(o == last)) { emit(runJson(names[k], lo, c - 1, last)); last = o; lo = c; }
        }
        emit(runJson(names[k], lo, size, last));
    }
    if (reuse && !prev.empty()) {
        std::vector<Part> pp = parse(prev, c2, r2); std::string pd = materialise(pp);
        put(P1, data); put(P2, pd);
        const char *rn[] = {"unord", "iter", "chrono"};
        for (int before = 0; before < 5; ++before) {
            Decoder d;
            for (int k = 0; k < 3; ++k) {
                FILE *sink = fopen("/dev/null", "w"); LogMessage msg;
                if (before == 4) { d.open("/nonexistent/file"); }
                else if (before == 3) { if (d.open(P2)) { d.getNextLogStatement(msg, sink); } }
                else run(d, P2, modes[before]);
                fclose(sink);
                emit(runJson(rn[k], size, size, run(d, P1, modes[k])));
            }
        }
    }
    fprintf(out, "]}\n"); fflush(out);
}
}

int main(int argc, char **argv) {
    setenv("TZ", "UTC0", 1); tzset();
    static char p1[64], p2[64]; snprintf(p1, sizeof p1, "ld1.%d", getpid()); snprintf(p2, sizeof p2, "ld2.%d", getpid()); P1 = p1; P2 = p2;
    if (!getenv("LD_STDERR")) freopen("/dev/null", "w", stderr);
    std::string line, prev;
    while (std::getline(std::cin, line)) {
        fflush(stdout);
        pid_t c = fork();
        if (!c) { alarm(60); struct rlimit rl = {1ul << 30, 1ul << 30}; setrlimit(RLIMIT_FSIZE, &rl); doCase(line, prev, stdout); fflush(stdout); _exit(0); }
        int st; waitpid(c, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { printf("@%d\n", st); fflush(stdout); }
        prev = line;
    }
    unlink(P1); unlink(P2);
}
