// Drives the real Encoder through operation sequences and decodes what it produced.
// One case per line:  c|p op op ...     (c: C++17 entries, p: preprocessor entries)
//   B<n>       give the encoder a fresh buffer of n bytes
//   D<k>       k more sites become known; encode dictionary entries (c only)
//   M<k>.<v>   append a message of kind k with parameter v to the input
//   E<t>.<w>.<n>  encode at most n bytes of the input for thread t
//   C<n>.<d>   insertCheckpoint into n bytes, with the dictionary if d
// At the end everything left is encoded into a large buffer and the whole file decoded.
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#define EXPOSE_PRIVATES
#include "Log.h"
#include "NanoLogCpp17.h"
#include "GeneratedCode.h"
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;
namespace {
const int KINDS = 7, G = 64;
const char *fmts[KINDS] = {"k0 plain", "k1 %d", "k2 %lu %lu %g %p", "k3 %s", "k4 %c%c%c%c%c%c%c%c%c%c", "k5 %d %s|%s %ld",
    "k6 %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd %hhd"};
const int nargs[KINDS] = {0, 1, 4, 1, 10, 4, 100}, nnib[KINDS] = {0, 1, 4, 0, 10, 2, 100};
const ParamType N = ParamType::NON_STRING, S = ParamType::STRING_WITH_NO_PRECISION;
ParamType pts[KINDS][100] = {{}, {N}, {N, N, N, N}, {S}, {N, N, N, N, N, N, N, N, N, N}, {N, S, S, N}, {}};       // k6: see main
typedef void (*CompressFn)(int, const ParamType *, char **, char **);
CompressFn fns[KINDS] = {&compress<>, &compress<int>, &compress<unsigned long, unsigned long, double, const void *>, &compress<const char *>,
    &compress<char, char, char, char, char, char, char, char, char, char>, &compress<int, const char *, const char *, long>,
    &compress<signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char, signed char>};
bool pre;
const uint64_t T0 = 1ul << 60;
struct Msg { int kind, v; uint64_t ts; std::string text; size_t off, size; };
uint32_t idOf(int kind) {
    if (!pre) return kind;
    for (size_t i = 0; i < GeneratedFunctions::numLogIds; ++i) if (!strncmp(GeneratedFunctions::logId2Metadata[i].fmtString, fmts[kind], 2)) return (uint32_t)i;
    exit(3);
}
int intOf(int v) { static const int x[] = {0, 1, -1, 255, 256, 65535, -65536, 16777216, 2147483647, -2147483647 - 1}; return x[v % 10]; }
unsigned long longOf(int v) { return v % 3 == 0 ? (unsigned long)v : ~0ul / (unsigned long)(v + 1); }
std::string strOf(int v) { return std::string(v, 'a' + v % 26); }
void put(std::string &o, const void *p, size_t n) { o.append((const char *)p, n); }
template <class T> void val(std::string &o, T x) { put(o, &x, sizeof x); }
void str(std::string &o, const std::string &s) { if (pre) { o += s; o += '\0'; } else { val<uint32_t>(o, (uint32_t)s.size()); o += s; } }
Msg append(std::string &in, int kind, int v, uint64_t ts) {
    std::string a; char t[9000]; Msg m; m.kind = kind; m.v = v; m.ts = ts;
    int d = intOf(v); unsigned long x = longOf(v), y = longOf(v + 1); double g = v * 1.25; void *p = (void *)(uintptr_t)x; char c = 'A' + v % 26; long l = -(long)x;
    std::string s1 = strOf(v), s2 = strOf(v / 2);
    switch (kind) {
    case 0: snprintf(t, sizeof t, "k0 plain"); break;
    case 1: val(a, d); snprintf(t, sizeof t, fmts[1], d); break;
    case 2: val(a, x); val(a, y); val(a, g); val(a, p); snprintf(t, sizeof t, fmts[2], x, y, g, p); break;
    case 3: str(a, s1); snprintf(t, sizeof t, fmts[3], s1.c_str()); break;
    case 4: for (int i = 0; i < 10; ++i) { if (pre) val<int>(a, c); else val<char>(a, c); } snprintf(t, sizeof t, fmts[4], c, c, c, c, c, c, c, c, c, c); break;
    case 6: { std::string w = "k6"; for (int i = 0; i < 100; ++i) { val<signed char>(a, (signed char)(v + i)); w += " " + std::to_string((int)(signed char)(v + i)); } strcpy(t, w.c_str()); break; }
    default:
        val(a, d); if (pre) val(a, l); str(a, s1); str(a, s2); if (!pre) val(a, l);
        snprintf(t, sizeof t, fmts[5], d, s1.c_str(), s2.c_str(), l);
    }
    m.text = t; m.off = in.size(); m.size = sizeof(UncompressedEntry) + a.size();
    UncompressedEntry e; e.fmtId = idOf(kind); e.entrySize = (uint32_t)m.size; e.timestamp = ts;
    put(in, &e, sizeof e); in += a;
    return m;
}
struct Guarded {                     // a buffer between guard bytes
    std::vector<unsigned char> v; size_t n = 0;
    explicit Guarded(size_t n) : v(n + 2 * G, 0xA5), n(n) {}
    char *p() { return (char *)v.data() + G; }
    bool ok() const { for (int i = 0; i < G; ++i) if (v[i] != 0xA5 || v[G + n + i] != 0xA5) return false; return true; }
};
void doCase(const std::string &line) {
    std::istringstream in(line); std::string tok; in >> tok; pre = tok == "p";
    Guarded *cur = new Guarded(1 << 16), *next = nullptr; bool guards = true;
    Encoder enc(cur->p(), cur->n, false, false);
    std::string input, out; std::vector<Msg> msgs; size_t pos = 0, mpos = 0; std::vector<int> threadOf;
    std::vector<StaticLogInfo> sites; uint32_t known = 0; std::string ev = "[";
    char b[400];
    auto event = [&](const char *s) { if (ev.size() > 1) ev += ","; ev += s; };
    auto fresh = [&](size_t n) {
        next = new Guarded(n); char *p = nullptr; size_t len = 0, size = 0; enc.swapBuffer(next->p(), n, &p, &len, &size);
        bool same = p == cur->p() && size == cur->n && len <= size; out.append(cur->p(), same ? len : 0); guards = guards && cur->ok();
        snprintf(b, sizeof b, "{\"op\":\"buf\",\"n\":%zu,\"len\":%zu,\"back\":%s}", n, len, same ? "true" : "false"); event(b);
        delete cur; cur = next;
    };
    auto dict = [&](int k) {
        while (k-- > 0 && (int)sites.size() < KINDS) { int i = (int)sites.size(); sites.push_back(StaticLogInfo(fns[i], "egen.cc", i + 1, 3, fmts[i], nargs[i], nnib[i], pts[i])); }
        size_t before = enc.getEncodedBytes(); uint32_t was = known; uint32_t r = enc.encodeNewDictionaryEntries(known, sites); size_t delta = enc.getEncodedBytes() - before;
        size_t need = 0; for (uint32_t i = was; i < known; ++i) need += sizeof(CompressedLogInfo) + 8 + strlen(fmts[i]) + 1;
        snprintf(b, sizeof b, "{\"op\":\"dict\",\"was\":%u,\"known\":%u,\"all\":%zu,\"delta\":%zu,\"r\":%u,\"need\":%zu,\"next\":%zu,\"guard\":%s}", was, known, sites.size(), delta, r, need,
                 known < sites.size() ? sizeof(CompressedLogInfo) + 8 + strlen(fmts[known]) + 1 : 0, cur->ok() ? "true" : "false"); event(b);
    };
    auto encode = [&](int t, bool w, size_t n) {
        size_t nb = std::min(n, input.size() - pos), before = enc.getEncodedBytes(); uint64_t cnt = 77;
        std::vector<StaticLogInfo> usable(sites.begin(), sites.begin() + known);
        long r = pre ? enc.encodeLogMsgs(&input[pos], nb, t, w, &cnt) : enc.encodeLogMsgs(&input[pos], nb, t, w, usable, &cnt);
        cnt -= 77; size_t delta = enc.getEncodedBytes() - before;
        snprintf(b, sizeof b, "{\"op\":\"enc\",\"t\":%d,\"nb\":%zu,\"got\":%ld,\"cnt\":%lu,\"delta\":%zu,\"known\":%u,\"guard\":%s,\"ms\":[", t, nb, r, (unsigned long)cnt, delta, pre ? (unsigned)KINDS : known, cur->ok() ? "true" : "false");
        std::string s = b; long took = 0; size_t i = mpos;
        for (size_t k = 0; k < 1000 && i < msgs.size() && msgs[i].off < pos + nb; ++k, ++i) { snprintf(b, sizeof b, "%s[%d,%zu]", k ? "," : "", msgs[i].kind, msgs[i].size); s += b; }
        event((s + "]}").c_str());
        while (mpos < msgs.size() && took + (long)msgs[mpos].size <= r) { took += (long)msgs[mpos].size; ++mpos; threadOf.push_back(t); }
        if (r > 0) pos += r;
    };
    while (in >> tok) {
        int a = 0, c = 0, d = 0; sscanf(tok.c_str() + 1, "%d.%d.%d", &a, &c, &d);
        switch (tok[0]) {
        case 'B': fresh(a); break;
        case 'D': if (!pre) dict(a); break;
        case 'M': msgs.push_back(append(input, a, c, T0 + 10 * (msgs.size() * 37 % 11))); break;
        case 'E': encode(a, c, d); break;
        case 'C': {
            Guarded g(a), big(1 << 16); char *o = g.p(), *p = big.p(); insertCheckpoint(&p, big.p() + big.n, c); bool r = insertCheckpoint(&o, g.p() + a, c);
            snprintf(b, sizeof b, "{\"op\":\"ckpt\",\"n\":%d,\"ok\":%s,\"moved\":%ld,\"need\":%ld,\"guard\":%s}", a, r ? "true" : "false", (long)(o - g.p()), (long)(p - big.p()), g.ok() ? "true" : "false"); event(b);
        } }
    }
    fresh(1 << 16); if (!pre) dict(KINDS);
    for (int i = 0; i < 50 && pos < input.size(); ++i) { encode(i % 3, false, 4000); fresh(1 << 16); }
    fresh(16);
    // decode
    FILE *f = fopen("ed.log", "wb"); fwrite(out.data(), 1, out.size(), f); fclose(f);
    Decoder dec; bool opened = dec.open("ed.log"); std::string got; size_t n = 0; bool right = true;
    if (opened) {
        LogMessage lm; char *mem = nullptr; size_t len = 0; FILE *o = open_memstream(&mem, &len);
        for (;; ++n) {
            rewind(o); fflush(o); if (mem) memset(mem, 0, len);
            if (!dec.getNextLogStatement(lm, o) || n > 10000) break;
            fflush(o); std::string s(mem ? mem : "", ftell(o)); size_t c = s.find("]: "), h = s.rfind('[', c);
            std::string text = c == std::string::npos ? s : s.substr(c + 3, s.size() - c - 5); int t = h == std::string::npos ? -1 : atoi(s.c_str() + h + 1);
            bool ok = n < mpos && text == msgs[n].text && t == threadOf[n] && lm.getTimestamp() == msgs[n].ts && lm.getLogId() == idOf(msgs[n].kind);
            right = right && ok;
            if (!ok && getenv("ED_STDERR")) fprintf(stderr, "message %zu: got <%s> thread %d ts %lu, want <%s> thread %d\n", n, text.c_str(), t, (unsigned long)lm.getTimestamp(), n < msgs.size() ? msgs[n].text.c_str() : "-", n < threadOf.size() ? threadOf[n] : -1);
        }
        fclose(o); free(mem);
    }
    snprintf(b, sizeof b, "{\"op\":\"end\",\"opened\":%s,\"guards\":%s,\"n\":%zu,\"right\":%s,\"want\":%zu,\"left\":%zu,\"good\":%s}", opened ? "true" : "false", guards && cur->ok() ? "true" : "false", n, right ? "true" : "false", msgs.size(), input.size() - pos, dec.good ? "true" : "false"); event(b);
    printf("%s]\n", ev.c_str());
}
}
int main() {
    for (ParamType &t : pts[6]) t = N;
    setenv("TZ", "UTC0", 1);
    if (!getenv("ED_STDERR")) freopen("/dev/null", "w", stderr);
    std::string line;
    while (std::getline(std::cin, line)) {
        fflush(stdout); pid_t c = fork();
        if (!c) { alarm(60); doCase(line); fflush(stdout); _exit(0); }
        int st; waitpid(c, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { printf("@%d\n", st); fflush(stdout); }
    }
}
