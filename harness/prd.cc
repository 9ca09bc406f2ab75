// Reads a log with the iterative reader (or, with "agg", with the aggregating decompressor).
//   prd file kinds [text] : per message: id, timestamp, text in hex, number of arguments, arguments
// kinds: one line per expected message, one letter per argument
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
#define EXPOSE_PRIVATES
#include "Log.h"
#include "NanoLogCpp17.h"
using namespace NanoLogInternal::Log;
static void hex(const void *p, size_t n) { for (size_t i = 0; i < n; ++i) printf("%02x", ((const unsigned char *)p)[i]); }
static void num(long long x) { printf(" %016llx", x); }
static void dbl(double d) { long long x; memcpy(&x, &d, 8); num(x); }
static int called;
static void agg(const char *, ...) { ++called; }
int main(int argc, char **argv) {
    setlocale(LC_ALL, ""); setlocale(LC_NUMERIC, "C");
    Decoder dec;
    if (!dec.open(argv[1])) { printf("UNOPENED\n"); return 1; }
    if (!strcmp(argv[2], "agg")) { dec.internalDecompressUnordered(stdout, atoi(argv[3]), agg); printf("\r\nCALLED %d\n", called); return 0; }
    std::ifstream kinds(argv[2]);
    bool text = argc > 3;
    LogMessage m; bool more = true; long n = 0; std::string k;
    for (;; ++n) {
        char *b = nullptr; size_t len = 0; FILE *f = text ? open_memstream(&b, &len) : nullptr;
        more = dec.getNextLogStatement(m, f);
        if (f) fclose(f);
        if (!more) { printf("END %d %zu %d\n", m.valid(), len, m.getNumArgs()); free(b); break; }
        if (!std::getline(kinds, k)) k = "";
        printf("M %d %u %016llx ", m.valid(), m.getLogId(), (unsigned long long)m.getTimestamp());
        if (text) hex(b, len); else printf("-");
        free(b);
        printf(" %d", m.getNumArgs());
        for (int i = 0; i < m.getNumArgs() && i < (int)k.size(); ++i) switch (k[i]) {
            case 'a': num(m.get<signed char>(i)); break; case 'b': num(m.get<unsigned char>(i)); break;
            case 'c': num(m.get<short>(i)); break; case 'd': num(m.get<unsigned short>(i)); break;
            case 'e': num(m.get<int>(i)); break; case 'f': num(m.get<unsigned>(i)); break;
            case 'g': num(m.get<long>(i)); break; case 'h': num(m.get<unsigned long>(i)); break;
            case 'p': num((long long)m.get<const void *>(i)); break;
            case 'x': dbl(m.get<double>(i)); break;
            case 's': { const char *s = m.get<const char *>(i); printf(" s"); hex(s, strlen(s)); break; }
            case 'w': { const char *s = (const char *)m.get<const wchar_t *>(i); printf(" w"); for (;; s += 4) { unsigned c; memcpy(&c, s, 4); if (!c) break; printf("%08x", c); } break; }
            default: printf(" -"); break;
        }
        printf("\n");
    }
    for (int i = 0; i < 2; ++i) { more = dec.getNextLogStatement(m, nullptr); printf("AGAIN %d %d\n", more, m.valid()); }
}
