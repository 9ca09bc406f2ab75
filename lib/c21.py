"""C21: the decompressor tool on logs of a real program, its outputs judged by Tool."""
from prog import *
from c18 import LINE

APP = r'''
#include <cstdint>
#include <cstdio>
#include <thread>
#include <vector>
#ifdef FRONT_CPP17
#include "NanoLogCpp17.h"
#else
#include "NanoLog.h"
#endif
using namespace NanoLog::LogLevels;
extern uint64_t now asm("_ZN9PerfUtils6Cycles12mockTscValueE");
static void log(int s, int v) {
    switch (s) {
%s
    }
}
int main(int, char **argv) {
    now = 1000000;
    NanoLog::setLogFile(argv[1]);
    NanoLog::setLogLevel(DEBUG);
    FILE *f = fopen(argv[2], "r");
    int n;
    while (fscanf(f, "%%d", &n) == 1)
        std::thread([&] { for (int s, v, d; n > 0 && fscanf(f, "%%d %%d %%d", &s, &v, &d) == 3; --n) { now += d; log(s, v); } }).join();
    NanoLog::sync();
    return 0;
}
'''
NAME = "tool app.cc"


def app(sites, levels):
    cases = ["case %d: NANO_LOG(%s, \"%s\"%s); break;" % (k + 1, lv, s["f"], s["a"].replace("`", '"')) for k, (s, lv) in enumerate(zip(sites, levels))]
    text = APP % "\n".join(cases)
    rows = text.split("\n")
    return text, [next(i + 1 for i, r in enumerate(rows) if r.startswith("case %d:" % (k + 1))) for k in range(len(sites))]


def build(ctx, rt, gen):
    """both front ends: {front: (program, tool)}, lines of the statements"""
    d = ctx.sub("app")
    text, lines = app(gen["sites"], gen["levels"])
    with open(d + "/" + NAME, "w") as f:
        f.write(text)
    fl = [rt.opt, "-DTESTING=1"]
    parser = os.path.join(REPO, "preprocessor", "parser.py")

    def core(kind, flags):
        for s in CORE:
            sh(["g++"] + BASEFLAGS + flags + ["-c", "%s/%s.cc" % (RT, s), "-o", "%s/%s%s.o" % (d, kind, s)])
        return ["%s/%s%s.o" % (d, kind, s) for s in CORE]

    def pre():
        sh(["g++", "-std=c++17", "-DTESTING=1", "-E", "-I" + RT, NAME, "-o", "app.i"], cwd=d)
        sh(["python3", "-B", "-W", "ignore", parser, "--mapOutput=app.map", "app.i"], cwd=d)
        sh(["g++", "-std=c++17", "-w", rt.opt, "-fpreprocessed", "-x", "c++", "-c", injected(d, "app"), "-o", "app.o"], cwd=d)
        sh(["python3", "-B", "-W", "ignore", parser, "--combinedOutput=gen.cc", "app.map"], cwd=d)
        sh(["g++"] + BASEFLAGS + rt.pre + ["-c", d + "/gen.cc", "-o", d + "/gen.o"])
        rt.link([d + "/app.o", d + "/gen.o"] + core("p", fl + ["-DPREPROCESSOR_NANOLOG"]), d + "/pprog")
        sh(["g++"] + BASEFLAGS + rt.pre + ["-c", RT + "/LogDecompressor.cc", "-o", d + "/ptool.o"])
        rt.link([d + "/ptool.o", d + "/gen.o"] + rt.core["p"], d + "/ptool")

    def cpp():
        sh(["g++"] + BASEFLAGS + fl + ["-DFRONT_CPP17", "-c", NAME, "-o", "capp.o"], cwd=d)
        rt.link([d + "/capp.o", rt.none] + core("c", fl), d + "/cprog")
        sh(["g++"] + BASEFLAGS + rt.fl + ["-c", RT + "/LogDecompressor.cc", "-o", d + "/ctool.o"])
        rt.link([d + "/ctool.o", rt.none] + rt.core["c"], d + "/ctool")
    parallel([pre, cpp])
    return d, lines


def pair(x):
    x = int(x)
    return [x >> 16, x & 65535] if -2 ** 46 < x < 2 ** 46 else [0, -1]


def near(x, scale):
    return min(2 ** 31 - 1, int(round(float(x) * scale))) if re.fullmatch(r"-?\d+\.\d+", x) else -1


def messages(out):
    end = out.find(b"\r\n\r\n# Decompression Complete after printing")
    ms = list(LINE.finditer(out))
    got = []
    for m, e in zip(ms, [x.start() for x in ms[1:]] + [end if end >= 0 else len(out)]):
        raw = out[m.end():e]
        raw = raw[:raw.find(b"\r\n# New execution started")] if b"\r\n# New execution started" in raw else raw
        h = re.match(rb".*\[(\d+)\]: $", m.group(0), re.S)
        got.append(dict(f=m[1].decode("latin1"), n=int(m[2]), l=m[3].decode(), id=int(h[1]), t=(raw[:-2] if raw.endswith(b"\r\n") else raw + b"<no end>").decode("latin1")))
    c = re.search(rb"# Decompression Complete after printing (\d+) log messages\r\n$", out)
    return dict(got=got, n=int(c[1]) if c else -1, marks=out.count(b"\r\n# New execution started\r\n"))


def found(out):
    rows = []
    for r in out.decode("latin1").split("\r\n")[1:]:
        m = re.match(r"\s*(\d+) \| (.*?)\s+\| (\d+)\s+\| (.*)$", r) or re.match(r"\s*(\d+) \| (.{20,}?) \| (\d+)\s* \| (.*)$", r)
        if m:
            rows.append(dict(id=int(m[1]), f=m[2], n=int(m[3]), t=m[4]))
        elif r:
            rows.append(dict(id=-1, f="", n=-1, t=r))
    return rows


def aggregate(out):
    t = out.decode("latin1")
    f = lambda r: (re.search(r, t, re.M) or [None, None])[1]
    num = lambda r: pair(f(r)) if f(r) else [0, -1]
    return dict(fmt=f(r'Aggregating log message "(.*)" \(logId=\d+\)\r$') if f(r'Aggregating log message "(.*)" \(logId=\d+\)\r$') is not None else "<none>",
                all=int(f(r"^Logs Encountered: (\d+)\r$") or -1), n=int(f(r"^Matching Logs: (\d+)") or -1), pct=near(f(r"^Matching Logs: \d+ \((.*)%\)") or "", 100),
                min=num(r"^Min: (-?\d+)\r$"), max=num(r"^Max: (-?\d+)\r$"), mean=num(r"^Mean: (-?\d+)\r$"), total=num(r"^Total: (-?\d+)\r$"))


def curve(out):
    t = out.decode("latin1")
    f = lambda r: (re.search(r, t, re.M) or [None, None])[1]
    return dict(curve=[[near(a, 100), near(b, 10 ** 6)] for a, b in re.findall(r"^\s*(\S+)    (\S+)\r$", t, re.M) if a != "#"],
                n=int(f(r"aggregate (\d+) time entries") or -1), mean=near(f(r"# The mean was (\S+) ns") or "", 100))


def job(ctx, d, k, g, lines, front, sites):
    def go():
        w = ctx.sub("%s%d" % (front, k))
        status = 0
        for n, ex in enumerate(g["log"]):
            with open("%s/script%d" % (w, n), "w") as f:
                for seg in ex:
                    f.write("%d\n" % len(seg) + "".join("%d %d %d\n" % (m["s"], m["v"], m["d"]) for m in seg))
            status |= limited(["%s/%sprog" % (d, front), "out.log", "script%d" % n], w, EMPTY).returncode
        ev = [dict(op="log", log=g["log"], lines=lines, file=NAME, status=status)]
        tool = "%s/%stool" % (d, front)
        run = lambda *a: limited([tool] + list(a), w, EMPTY)
        say = lambda p: dict(status=p.returncode, said=len(p.stdout) > 0)
        if front == "p":
            qs = ["", "count", "Count", "%d", "|", "5%%", "zzz", "count %d of", " ", "a", "string, longer", ".", "[%*d]", "1|"]
            for q in qs if k % 4 == 0 else [""] + random.Random(k).sample(qs, 3):
                p = run("find", "out.log", q)
                ev.append(dict(op="find", q=q, status=p.returncode, rows=found(p.stdout)))
            for i in list(range(len(sites) + 1)) + [len(sites) + 7, 2 ** 31 - 1]:
                p = run("minMaxMean", "out.log", str(i))
                ev.append(dict(op="agg", id=i, **say(p), **aggregate(p.stdout)))
            for i in ("x", "-1", "99999999999999", ""):
                ev.append(dict(op="refused", what=i, **say(run("minMaxMean", "out.log", i))))
            if k % 4 == 1:
                ev += [dict(op="refused", what=c, **say(run(*c.split()))) for c in ("minMaxMean out.log", "find out.log", "find missing.log x", "minMaxMean missing.log 1")]
        else:
            ev.append(dict(op="log", status=0, rows=[]))
        for how, c in (("ordered", "decompress"), ("unordered", "decompressUnordered")):
            p = run(c, "out.log")
            ev.append(dict(op=how, status=p.returncode, **messages(p.stdout)))
        if len(g["log"]) == 1 and len(g["log"][0]) == 1:
            p = run("rcdfTime", "out.log")
            ev.append(dict(op="rcdf", status=p.returncode, **curve(p.stdout)))
        if k % 4 == 0:
            ev += [dict(op="refused", what=c, **say(run(*c.split()))) for c in ("decompress missing.log", "decompressUnordered missing.log", "rcdfTime missing.log", "decompress", "unknown out.log", "Decompress out.log")]
        shutil.rmtree(w, ignore_errors=True)
        return ev
    return go


def generate(ctx, cfg, n, salt):
    r = tlc(ctx, "ToolGen", cfg, workers=1, simulate="num=%d" % n, extra=["-depth", "3", "-seed", str(ctx.seed * 113 + salt)], timeout=800)
    got = [json.loads(re.sub(r"\\(.)", r"\1", x)) for x in re.findall(r'^"(\{.*\})"$', r.out, re.M)]
    if len(got) < n:
        raise CheckError("ToolGen generated too little:\n%s" % r.out[-2000:])
    ctx.states += r.generated
    ctx.transitions += r.generated
    return got[:n]


def run(ctx):
    q = ctx.quick
    ctx.assumptions += ["the first argument of an aggregated statement is an integer", "latency curves of logs of one thread and one execution"]
    rt, a, b = parallel([lambda: Runtime(ctx), lambda: generate(ctx, "ToolGen1.cfg", 24 if q else 300, 1), lambda: generate(ctx, "ToolGenN.cfg", 48 if q else 600, 2)])
    d, lines = build(ctx, rt, a[0])
    ctx.note("built the program and the tool for both front ends; %d logs generated" % (len(a) + len(b)))
    logs = [(k, g, "p" if k % 3 else "c") for k, g in enumerate(a + b)]
    traces = parallel([job(ctx, d, k, g, lines, front, a[0]["sites"]) for k, g, front in logs])
    ctx.note("%d tool runs" % sum(len(t) - 1 for t in traces))
    for i, pos, names in validate(ctx, "TraceTool", "TraceTool.cfg", traces, shards=NCPU):
        ev = traces[i][pos - 1]
        ctx.violation("%s front end: wrong %s: %s" % ("preprocessor" if logs[i][2] == "p" else "C++17", ", ".join(sorted(names)), json.dumps({k: x for k, x in ev.items() if k != "log"})[:600]),
                      dict(event=ev, log=logs[i][1]["log"]), key="tool:%s:%s" % (ev["op"], digest(logs[i][1]["log"])))
    ctx.add("logs", len(traces))
    ctx.add("tool_runs", sum(len(t) - 1 for t in traces))
    ctx.samples += [t[1:] and {k: x for k, x in t[-1].items() if k != "log"} for t in traces[:3]]
