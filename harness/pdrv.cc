// Packs and unpacks values with the real Packer.h.  Input: one stream per line, "type:hexbytes" items
// (little-endian object representation).  Output: one JSON array per line, an event per value packed
// and unpacked by itself and one event for the whole stream read through a Nibbler.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "Packer.h"
using namespace BufferUtils;
typedef std::vector<unsigned char> Bytes;
static const unsigned char GUARD = 0xA5;
static std::string list(const Bytes &b) {
    std::string s = "[";
    for (size_t i = 0; i < b.size(); ++i) { if (i) s += ","; s += std::to_string(b[i]); }
    return s + "]";
}
// object bytes that carry the value (x87 long doubles have six bytes of padding)
template<typename T> struct ValueBytes { static const size_t n = sizeof(T); };
template<> struct ValueBytes<long double> { static const size_t n = 10; };

struct Handler {
    const char *name; size_t size, vbytes;
    int (*doPack)(char **, const Bytes &);
    Bytes (*doUnpack)(const char **, int);
    Bytes (*doNext)(Nibbler &);
};
template<typename T> Bytes toBytes(T v) { Bytes b(ValueBytes<T>::n); memcpy(b.data(), &v, b.size()); return b; }
template<typename T> struct H {
    static int p(char **o, const Bytes &b) { T v; memset(&v, 0, sizeof v); memcpy(&v, b.data(), b.size()); return pack(o, v); }
    static Bytes u(const char **i, int code) { return toBytes<T>(unpack<T>(i, (uint8_t)code)); }
    static Bytes n(Nibbler &nb) { return toBytes<T>(nb.getNext<T>()); }
    static Handler make(const char *s) { return Handler{s, sizeof(T), ValueBytes<T>::n, p, u, n}; }
};
static std::vector<Handler> handlers = {
    H<bool>::make("b"), H<char>::make("c"), H<signed char>::make("a"), H<unsigned char>::make("h"),
    H<short>::make("s"), H<unsigned short>::make("t"), H<int>::make("i"), H<unsigned>::make("j"),
    H<long>::make("l"), H<unsigned long>::make("m"), H<long long>::make("x"), H<unsigned long long>::make("y"),
    H<wchar_t>::make("w"), H<float>::make("f"), H<double>::make("d"), H<long double>::make("e"),
    H<void *>::make("p"), H<const void *>::make("q"),
};
static Handler &find(char c) { for (auto &h : handlers) if (h.name[0] == c) return h; abort(); }
static Bytes unhex(const std::string &s) {
    Bytes b;
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((unsigned char)strtol(s.substr(i, 2).c_str(), nullptr, 16));
    return b;
}

// all values of a type given as [lo, hi] of its unsigned representation: reports the first that does not round-trip
template<typename T, typename U> static void sweep(const char *name, unsigned long lo, unsigned long hi, unsigned long step) {
    unsigned long n = 0;
    char buf[64];
    for (unsigned long u = lo; u <= hi; u += step) {
        U raw = (U)u; T v; memcpy(&v, &raw, sizeof v);
        char *o = buf + 16; int code = pack(&o, v) & 0xf;
        const char *i = buf + 16; T w = unpack<T>(&i, (uint8_t)code);
        long len = o - (buf + 16);
        TwoNibbles tn; tn.first = (uint8_t)code; tn.second = 0;
        ++n;
        if (memcmp(&v, &w, sizeof v) || i != o || len < 1 || len > (long)sizeof(T) || getSizeOfPackedValues(&tn, 1) != (uint32_t)len) {
            printf("[{\"k\":\"sweep\",\"n\":%lu,\"bad\":1,\"t\":\"%s\",\"v\":\"%lx\",\"len\":%ld,\"adv\":%ld}]\n", n, name, u, len, (long)(i - (buf + 16)));
            return;
        }
        if (u > hi - step) break;
    }
    printf("[{\"k\":\"sweep\",\"n\":%lu,\"bad\":0,\"t\":\"%s\",\"v\":\"\",\"len\":0,\"adv\":0}]\n", n, name);
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line[0] == '!') {
            char t; unsigned long lo, hi, st;
            sscanf(line.c_str(), "!%c %lx %lx %lx", &t, &lo, &hi, &st);
            if (t == 'c') sweep<char, unsigned char>("c", lo, hi, st);
            else if (t == 's') sweep<short, unsigned short>("s", lo, hi, st);
            else if (t == 't') sweep<unsigned short, unsigned short>("t", lo, hi, st);
            else if (t == 'i') sweep<int, unsigned>("i", lo, hi, st);
            else if (t == 'j') sweep<unsigned, unsigned>("j", lo, hi, st);
            else if (t == 'l') sweep<long, unsigned long>("l", lo, hi, st);
            else if (t == 'm') sweep<unsigned long, unsigned long>("m", lo, hi, st);
            else if (t == 'x') sweep<long long, unsigned long>("x", lo, hi, st);
            else if (t == 'f') sweep<float, unsigned>("f", lo, hi, st);
            else if (t == 'd') sweep<double, unsigned long>("d", lo, hi, st);
            continue;
        }
        std::istringstream in(line);
        std::string item, out = "[";
        std::vector<std::pair<Handler *, Bytes>> items;
        while (in >> item) items.push_back({&find(item[0]), unhex(item.substr(2))});
        std::vector<int> codes;
        // the stream: nibbles first, then the packed values
        size_t n = items.size(), total = 0;
        std::vector<char> stream((n + 1) / 2 + 16 * n + 64, (char)GUARD);
        char *start = stream.data() + 8, *pos = start + (n + 1) / 2;
        TwoNibbles *nib = (TwoNibbles *)start;
        memset(start, 0, (n + 1) / 2);
        for (size_t i = 0; i < n; ++i) {
            Handler &h = *items[i].first;
            std::vector<char> one(64, (char)GUARD);
            char *o = one.data() + 16;
            int code = h.doPack(&o, items[i].second);
            long len = o - (one.data() + 16);
            bool guard = true;
            for (size_t k = 0; k < one.size(); ++k)
                if ((k < 16 || k >= 16 + 16) && (unsigned char)one[k] != GUARD) guard = false;
            int nibble = code & 0xf;
            Bytes back(h.vbytes, 0); long adv = -1;
            if (len >= 0 && len <= 32) {
                const char *ip = one.data() + 16;
                back = h.doUnpack(&ip, nibble);
                adv = ip - (one.data() + 16);
            }
            out += std::string(out.size() > 1 ? "," : "") + "{\"k\":\"one\",\"t\":\"" + h.name + "\",\"sz\":" + std::to_string(h.size) +
                   ",\"in\":" + list(items[i].second) + ",\"out\":" + list(back) + ",\"len\":" + std::to_string(len) + ",\"adv\":" +
                   std::to_string(adv) + ",\"guard\":" + (guard ? "true" : "false") + "}";
            char *before = pos;
            int c2 = h.doPack(&pos, items[i].second) & 0xf;
            if (pos < before || pos - before > 16) pos = before + 16;
            if (i % 2) nib[i / 2].second = c2 & 0xf; else nib[i / 2].first = c2 & 0xf;
        }
        total = pos - start;
        if (n) {
            Nibbler nb(start, (int)n);
            std::string ins, outs;
            for (size_t i = 0; i < n; ++i) {
                ins += (i ? "," : "") + list(items[i].second);
                outs += (i ? "," : "") + list(items[i].first->doNext(nb));
            }
            out += ",{\"k\":\"stream\",\"ins\":[" + ins + "],\"outs\":[" + outs + "],\"total\":" + std::to_string(total) + ",\"end\":" +
                   std::to_string(nb.getEndOfPackedArguments() - start) + "}";
        }
        puts((out + "]").c_str());
    }
}
