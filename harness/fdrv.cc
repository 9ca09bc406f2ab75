// What the C++17 front end's analysis and the decoder's parser find in a format string.
// Input: one format per line, in hex.  Output: one JSON object per line.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#define EXPOSE_PRIVATES
#include "Log.h"
#include "NanoLogCpp17.h"
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;
namespace {
const int LONGEST = 200;
struct Analysis { bool ran = false, threw = false; int count = -1, nibbles = -1; std::vector<long> params; };
template <int N> void analyse(const char *s, Analysis &a) {
    char f[N]; memcpy(f, s, N);
    a.ran = true;
    try {
        a.count = countFmtParams<N>(f); a.nibbles = getNumNibblesNeeded<N>(f);
        for (int i = 0; i <= a.count && i < 300; ++i) a.params.push_back(getParamInfo<N>(f, i));
    } catch (const std::exception &) { a.threw = true; }
}
typedef void (*Fn)(const char *, Analysis &);
template <int... I> const Fn *table(std::integer_sequence<int, I...>) { static const Fn t[] = {analyse<I + 1>...}; return t; }
const char *const types[] = {"NONE", "unsigned char", "unsigned short int", "unsigned int", "unsigned long int", "unsigned long long int", "uintmax_t", "size_t", "wint_t",
    "signed char", "short int", "int", "long int", "long long int", "intmax_t", "ptrdiff_t", "double", "long double", "const void*", "const char*", "const wchar_t*", "?"};
static_assert(MAX_FORMAT_TYPE == 21 && size_t_t == 7 && const_wchar_t_ptr_t == 20, "");
std::string bytes(const char *p, size_t n) {
    std::string r = "["; for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + std::to_string((unsigned char)p[i]); return r + "]";
}
}
int main() {
    const Fn *fns = table(std::make_integer_sequence<int, LONGEST>());
    std::string line;
    while (std::getline(std::cin, line)) {
        std::string s; for (size_t i = 0; i + 1 < line.size(); i += 2) s += (char)std::stoi(line.substr(i, 2), nullptr, 16);
        Analysis a; if ((int)s.size() < LONGEST) fns[s.size()](s.c_str(), a);
        printf("{\"ran\":%s,\"threw\":%s,\"count\":%d,\"nibbles\":%d,\"params\":[", a.ran ? "true" : "false", a.threw ? "true" : "false", a.count, a.nibbles);
        for (size_t i = 0; i < a.params.size(); ++i) printf("%s%ld", i ? "," : "", a.params[i]);
        std::vector<char> buf(1 << 16, '\xee'); char *at = buf.data();
        bool ok = Decoder::createMicroCode(&at, s.c_str(), "some/file.cc", 4711, 2);
        long used = at - buf.data();
        auto *fm = reinterpret_cast<FormatMetadata *>(buf.data());
        bool head = ok && fm->lineNumber == 4711 && fm->logLevel == 2 && fm->filenameLength == 13 && !strcmp(fm->filename, "some/file.cc");
        printf("],\"micro\":%s,\"mnibbles\":%d,\"fragments\":[", head ? "true" : "false", fm->numNibbles);
        char *p = buf.data() + sizeof(FormatMetadata) + 13;
        for (int i = 0; head && i < fm->numPrintFragments; ++i) {
            auto *pf = reinterpret_cast<PrintFragment *>(p);
            size_t n = strnlen(pf->formatFragment, 60000);
            printf("%s{\"b\":%s,\"type\":\"%s\",\"dw\":%s,\"dp\":%s,\"size\":%ld}", i ? "," : "", bytes(pf->formatFragment, n).c_str(), types[pf->argType > 21 ? 21 : pf->argType],
                   pf->hasDynamicWidth ? "true" : "false", pf->hasDynamicPrecision ? "true" : "false", (long)pf->fragmentLength - (long)n - 1);
            p += sizeof(PrintFragment) + pf->fragmentLength;
        }
        printf("],\"rest\":%ld}\n", head ? used - (p - buf.data()) : 0L);
    }
}
