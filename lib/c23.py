"""C23: TimeTrace; operations generated by TLC, executed by the real class, outputs judged by TimeTrace."""
import json, os, random, re, shutil, subprocess
from vc import *

OPS = dict(rec="r", tsc="a", reset="z", end="x", touch="t", get="g", print="p", stdout="s", during="m", noprint="n")
LINE = re.compile(rb"\s*(-?\d+)\.(\d) ns \(\+\s*(-?\d+)\.(\d) ns\): (\d+)\.(\d+)(.*)", re.S)
FREQ = {10: 1e9, 5: 2e9, 20: 5e8}


def generate(ctx, cfg, n, salt):
    r = tlc(ctx, "TimeTraceGen", cfg, workers=1, simulate="num=%d" % n, extra=["-depth", "30", "-seed", str(ctx.seed * 131 + salt)], timeout=800)
    got = [json.loads(re.sub(r"\\(.)", r"\1", x))["ops"] for x in re.findall(r'^"(\{.*\})"$', r.out, re.M)]
    if len(got) < n:
        raise CheckError("TimeTraceGen generated too little:\n%s" % r.out[-2000:])
    ctx.states += r.generated
    ctx.transitions += r.generated
    return got[:n]


def parse(raw, none):
    if raw.strip() == none:
        return dict(none=True, bad=0, lines=[])
    rows, bad = [], 0
    for x in raw.rstrip(b"\n").split(b"\n") if raw else []:
        m = LINE.fullmatch(x)
        if not m or max(int(m[1]), int(m[5]), int(m[6])) > 10 ** 8:
            bad += 1
            continue
        tenth = lambda a, b: int(a + b)
        rows.append([int(m[5]), int(m[6]), tenth(m[1], m[2]), tenth(m[3], m[4]), m[7].decode("latin1")])
    return dict(none=False, bad=bad, lines=rows)


def job(ctx, exe, k, ops, kk, base):
    def go():
        w = ctx.sub("tt%d" % k)
        ops2 = ops + [dict(op="get", b=0), dict(op="get", b=9)]
        script = "".join("%s %d %d %d %d %d\n" % (OPS[o["op"]], o["b"], o.get("f", 0), o.get("n", 0), o.get("t", 0), o.get("d", 0)) for o in ops2)
        with open(w + "/stdout.txt", "ab") as so:
            try:
                rc = subprocess.run([exe, "res", repr(FREQ[kk]), str(base)], input=script.encode(), cwd=w, stdout=so, stderr=subprocess.DEVNULL, timeout=120).returncode
            except subprocess.TimeoutExpired:
                rc = "no end"
        raw = open(w + "/res", "rb").read()
        m = re.match(rb"cap (\d+)\n", raw)
        res, pos = {}, m.end() if m else len(raw)
        while True:
            h = re.match(rb"= (\d+) (\d+)\n", raw[pos:pos + 60])
            if not h or pos + h.end() + int(h[2]) >= len(raw):
                break
            res[int(h[1])] = raw[pos + h.end():pos + h.end() + int(h[2])]
            pos += h.end() + int(h[2]) + 1
        ev = [dict(op="begin", cap=int(m[1]) if m else 2, k=kk)]
        for i, o in enumerate(ops2):
            if OPS[o["op"]] in "gpsmn":
                if i + 1 not in res:
                    ev.append(dict(op="died", b=0, how=str(rc)))
                    break
                o = dict(o, **parse(res[i + 1], b"No time trace events to print"))
                if o["op"] == "noprint":
                    o = dict(op="noprint", b=0)
            ev.append(o)
        else:
            if rc != 0:
                ev.append(dict(op="died", b=0, how=str(rc)))
        shutil.rmtree(w, ignore_errors=True)
        return ev
    return go


def run(ctx):
    q = ctx.quick
    ctx.assumptions += ["timestamps do not decrease within a thread", "one thread of control at a time, except for recording while a trace is printed"]
    d = ctx.sub("tt")
    fl = ["-O2", "-DTESTING=1"]
    srcs = [RT + "/TimeTrace.cc", RT + "/Cycles.cc", RT + "/Util.cc", H + "/ttdrv.cc"]
    objs = ["%s/%d.o" % (d, i) for i in range(len(srcs))]
    mc = lambda: model_check(ctx, "MCTimeTrace", "MCTimeTrace.cfg" if q else "MCTimeTraceT.cfg", workers=4, timeout=800)
    a, b = (120, 24) if q else (1500, 200)
    r = parallel([cc(s, o, fl) for s, o in zip(srcs, objs)] + [mc, lambda: generate(ctx, "TimeTraceGen1.cfg", a, 1), lambda: generate(ctx, "TimeTraceGenN.cfg", b, 2)])
    sh(["g++"] + objs + ["-o", d + "/ttdrv", "-lpthread"])
    rng = random.Random(ctx.seed)
    progs = r[-2] + r[-1]
    traces = parallel([job(ctx, d + "/ttdrv", k, ops, rng.choice(sorted(FREQ)), rng.choice([0, 0, 10 ** 15])) for k, ops in enumerate(progs)])
    ctx.note("%d programs, %d events printed" % (len(traces), sum(len(e.get("lines", ())) for t in traces for e in t)))
    for i, pos, names in validate(ctx, "TraceTimeTrace", "TraceTimeTrace.cfg", traces, shards=NCPU)[:5]:
        ev = traces[i][pos - 1]
        ctx.violation("time trace: wrong %s in operation %d: %s" % (", ".join(sorted(names)), pos - 1, json.dumps(ev)[:400]),
                      dict(ops=progs[i], operation=pos - 1, broken=sorted(names), first=traces[i][0]), key="tt:%s" % digest(progs[i]))
    ctx.add("programs", len(traces))
    ctx.add("events_printed", sum(len(e.get("lines", ())) for t in traces for e in t))
    ctx.samples += [progs[0], progs[-1]]
