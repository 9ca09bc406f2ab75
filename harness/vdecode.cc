// vdecode: turns the records of vsim (events + log file bytes) into traces:
// every recorded file size becomes a "snap" event whose contents are what the
// real decoder recovers from that prefix of the file.
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <string>
#include <vector>
#include "Log.h"
using namespace NanoLogInternal;
struct Line { int t, k, line, lvl, buf, ok, exec; std::string ts; };
struct Dec { std::vector<Line> v; long count = -1, ret = 0; int execs = 0; bool opened = true, foreign = false; };
typedef std::map<std::string, std::pair<int, int>> Texts;
static const char *lv[] = {"(none)", "ERROR", "WARNING", "NOTICE", "DEBUG"};

static bool parseLine(const std::string &s, const Texts &tx, int exec, Line &o) {
    // YYYY-MM-DD HH:MM:SS.nnnnnnnnn file:line LEVEL[id]: text
    o = Line(); o.exec = exec; o.t = 0; o.k = 0; o.ok = 0;
    if (s.size() < 31 || s[10] != ' ' || s[19] != '.' || s[29] != ' ') return false;
    o.ts = s.substr(0, 29);
    size_t b = s.find("]: ");
    if (b == std::string::npos) return false;
    size_t lb = s.rfind('[', b); if (lb == std::string::npos) return false;
    o.buf = atoi(s.c_str() + lb + 1);
    size_t sp = s.rfind(' ', lb); if (sp == std::string::npos) return false;
    std::string level = s.substr(sp + 1, lb - sp - 1);
    o.lvl = -1; for (int i = 0; i < 5; ++i) if (level == lv[i]) o.lvl = i;
    size_t co = s.rfind(':', sp); if (co == std::string::npos || co < 30) return false;
    o.line = atoi(s.c_str() + co + 1);
    std::string file = s.substr(30, co - 30);
    auto it = tx.find(s.substr(b + 3));
    if (it == tx.end()) return true;
    o.t = it->second.first; o.k = it->second.second;
    o.ok = file.size() >= 7 && file.compare(file.size() - 7, 7, "vdrv.cc") == 0;
    return true;
}
static Dec decode(const std::string &data, bool ordered, const Texts &tx) {
    Dec d; char path[64]; snprintf(path, sizeof path, "vdec.%d", getpid());
    FILE *f = fopen(path, "wb"); fwrite(data.data(), 1, data.size(), f); fclose(f);
    char *mem = nullptr; size_t n = 0; FILE *o = open_memstream(&mem, &n);
    {
        Log::Decoder dec;
        d.opened = dec.open(path);
        if (d.opened) d.ret = ordered ? dec.decompressTo(o) : dec.decompressUnordered(o);
    }
    fclose(o); unlink(path);
    std::string all(mem, n); free(mem);
    size_t p = 0; int exec = 0;
    while (p < all.size()) {
        size_t e = all.find("\r\n", p); if (e == std::string::npos) e = all.size();
        std::string l = all.substr(p, e - p); p = e + 2;
        if (l.empty()) continue;
        if (l[0] == '#') {
            if (l.find("New execution") != std::string::npos) ++exec;
            size_t q = l.find("printing "); if (q != std::string::npos) d.count = atol(l.c_str() + q + 9);
            continue;
        }
        Line x; if (!parseLine(l, tx, exec, x)) { x.t = 0; x.k = 0; x.ok = 0; x.lvl = -1; }
        d.v.push_back(x);
    }
    d.execs = exec;
    return d;
}
static void putSnap(std::string &out, const char *op, const std::string &f, Dec &d) {
    // ranks of timestamps
    std::vector<std::string> ts; for (auto &l : d.v) ts.push_back(l.ts);
    std::sort(ts.begin(), ts.end()); ts.erase(std::unique(ts.begin(), ts.end()), ts.end());
    char b[200];
    snprintf(b, sizeof b, ",{\"op\":\"%s\",\"f\":\"%s\",\"ret\":%ld,\"cnt\":%ld,\"opened\":%s,\"m\":[", op, f.c_str(), d.ret, d.count, d.opened ? "true" : "false");
    out += b;
    for (size_t i = 0; i < d.v.size(); ++i) { Line &l = d.v[i];
        int rank = std::lower_bound(ts.begin(), ts.end(), l.ts) - ts.begin();
        snprintf(b, sizeof b, "%s[%d,%d,%d,%d,%d,%d,%d,%d]", i ? "," : "", l.t, l.k, l.line, l.lvl, l.buf, l.ok, l.exec, rank); out += b; }
    out += "]}";
}
struct Rec { std::string json, job; std::map<std::string, std::string> files; };

static std::string process(Rec &r, bool deep) {
    // split events (no nested braces in event objects)
    std::string out; Texts tx;
    size_t evs = r.json.find("\"ev\":[");
    std::string head = r.json.substr(0, evs + 6);
    size_t p = evs + 6; std::string lastSnap; std::vector<std::string> files;
    bool ended = false; std::string tail;
    out = head;
    bool first = true;
    auto add = [&](const std::string &e) { if (!first) out += ','; out += e; first = false; };
    std::map<std::string, long> lastN;
    while (p < r.json.size()) {
        if (r.json[p] == ']') { ended = true; tail = r.json.substr(p); break; }
        if (r.json[p] == ',') { ++p; continue; }
        size_t q = p; bool str = false;
        for (; q < r.json.size(); ++q) { char c = r.json[q]; if (c == '"') str = !str; else if (c == '}' && !str) break; }
        std::string e = r.json.substr(p, q - p + 1); p = q + 1;
        auto is = [&](const char *op) { std::string k = std::string("{\"op\":\"") + op + "\""; return e.compare(0, k.size(), k) == 0; };
        if (is("lc")) {
            size_t x = e.find(",\"x\":\""); std::string t = e.substr(x + 6, e.size() - x - 8);
            int tt, kk; sscanf(e.c_str(), "{\"op\":\"lc\",\"t\":%d,\"k\":%d", &tt, &kk);
            tx[t] = {tt, kk};
            add(e.substr(0, x) + "}");
        } else if (is("snap")) {
            char f[128]; long n; sscanf(e.c_str(), "{\"op\":\"snap\",\"f\":\"%127[^\"]\",\"n\":%ld", f, &n);
            if (lastN.count(f) && lastN[f] == n) continue;
            lastN[f] = n;
            auto it = r.files.find(f);
            std::string data = it == r.files.end() ? "" : it->second.substr(0, n);
            Dec d = decode(data, false, tx);
            std::string s; putSnap(s, "snap", f, d); add(s.substr(1));
        } else if (is("tend") || is("st") || is("begin")) {
        } else add(e);
    }
    if (ended && tail.find("\"verdict\":\"ok\"") != std::string::npos) {
        for (auto &kv : r.files) {
            Dec d = decode(kv.second, false, tx);
            std::string s; putSnap(s, "snap", kv.first, d); add(s.substr(1));
            if (deep) { Dec o = decode(kv.second, true, tx); std::string s2; putSnap(s2, "ord", kv.first, o); add(s2.substr(1)); }
        }
        add("{\"op\":\"exit\"}");
    } else if (ended) {
        size_t v = tail.find("\"verdict\":\""); std::string w = tail.substr(v + 11, tail.find('"', v + 11) - v - 11);
        add("{\"op\":\"bad\",\"k\":\"" + w + "\"}");
    }
    out += tail.empty() ? "]}\n" : tail;
    return out;
}
static void flushBatch(std::vector<Rec> &recs, bool deep) {
    size_t *done = (size_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *done = 0;
    while (*done < recs.size()) {
        fflush(stdout);
        pid_t pid = fork();
        if (!pid) {
            if (!freopen("/dev/null", "w", stderr)) _exit(3);
            while (*done < recs.size()) { alarm(20); std::string s = process(recs[*done], deep); fputs(s.c_str(), stdout); fflush(stdout); ++*done; }
            _exit(0);
        }
        int st; waitpid(pid, &st, 0);
        if (*done < recs.size()) {   // the decoder crashed or looped on this record
            Rec &r = recs[*done]; size_t evs = r.json.find("\"ev\":[");
            printf("%s{\"op\":\"bad\",\"k\":\"dcrash\"}],\"verdict\":\"dcrash\"}\n", r.json.substr(0, evs + 6).c_str());
            ++*done;
        }
    }
    munmap(done, 4096);
    recs.clear();
}
int main(int argc, char **argv) {
    bool deep = argc > 1 && !strcmp(argv[1], "deep");
    std::vector<Rec> recs; char hdr[256];
    while (fgets(hdr, sizeof hdr, stdin)) {
        size_t a, b; if (sscanf(hdr, "R %zu %zu", &a, &b) != 2) { fprintf(stderr, "bad record\n"); return 3; }
        Rec r; r.json.resize(a); r.job.resize(b);
        if (fread(&r.json[0], 1, a, stdin) != a || fread(&r.job[0], 1, b, stdin) != b) return 3;
        while (fgets(hdr, sizeof hdr, stdin) && hdr[0] == 'F') {
            char f[128]; size_t n; sscanf(hdr, "F %127s %zu", f, &n);
            std::string d(n, 0); if (n && fread(&d[0], 1, n, stdin) != n) return 3;
            r.files[f] = d;
        }
        recs.push_back(std::move(r));
        if (recs.size() >= 200) flushBatch(recs, deep);
    }
    flushBatch(recs, deep);
    return 0;
}
