"""C17 and C20: generated programs through the C++17 front end (and, for C20, the preprocessor)."""
from prog import *
import c18


def describe(ev):
    f = '"%s"' % fmt(ev) if "items" in ev else ""
    if ev["op"] == "text":
        return "%s printed %r instead of %r" % (f, bytes(ev["got"]), bytes(ev["want"]))
    if ev["op"] == "values":
        return "%s with arguments %s: %d arguments %s" % (f, json.dumps(ev["args"])[:200], ev["nargs"], json.dumps(ev["vals"])[:200])
    return "%s %s" % (f, json.dumps({k: x for k, x in ev.items() if k in ("op", "status", "reader", "logged", "got", "ids", "ends", "fmt")})[:300])


def judge(ctx, jobs, ops, label):
    """jobs: functions returning traces"""
    traces = [t for ts in parallel(jobs) for t in ts]
    if ctx.prop != "C17":
        traces = [[e for e in t if e["op"] in ops] for t in traces]
    else:
        traces = [[e for e in t if e["op"] in ops] for t in traces]
    traces = [t for t in traces if t]
    ctx.note("%s: %d executed statements" % (label, len(traces)))
    for i, pos, names in validate(ctx, "TracePrint", "TracePrint.cfg", traces, shards=NCPU):
        ev = traces[i][pos - 1]
        if "ORACLE" in names:
            raise CheckError("Printf.tla disagrees with the C library: %s rendered as %r" % (json.dumps(ev)[:1500], bytes(ev["want"])))
        ctx.violation("%s: wrong %s: %s" % (label, ", ".join(sorted(names)), describe(ev)), ev, key="print:%s" % digest([ev.get("items"), ev.get("args")]))
    ctx.add("messages", len(traces))


def cpp_jobs(ctx, rt, sts, per, env, name, text=True):
    def job(k):
        def go():
            mine = sts[k:k + per]
            prog, rounds = program(mine, k)
            d = rt.cpp17("%s%d" % (name, k), prog)
            with open(d + "/kinds", "w") as f:
                f.write("".join(kinds(st) + "\n" for r in range(rounds) for st in mine))
            rc, rows = execute(ctx, d, env)
            rrc, msgs, tail = read(rt.d + "/prd", d, env, text)
            return events(mine, k, rows, rc, msgs, rrc, tail, text)
        return go
    return [job(k) for k in range(0, len(sts), per)]


def pre_jobs(ctx, rt, sts, per, env, name, text=True):
    def job(k):
        def go():
            mine = sts[k:k + per]
            prog, rounds = program(mine, k)
            prog = prog.replace('#include "NanoLogCpp17.h"\n', "").replace('#include "NanoLog.h"\n', '#include "NanoLog.h"\nusing namespace NanoLog::LogLevels;\n')
            d = rt.preprocessed("%s%d" % (name, k), {"prog.cc": prog})
            with open(d + "/kinds", "w") as f:
                f.write("".join(kinds(st) + "\n" for r in range(rounds) for st in mine))
            rc, rows = execute(ctx, d, env)
            rrc, msgs, tail = read(rt.d + "/prd", d, env, text)
            return events(mine, k, rows, rc, msgs, rrc, tail, text)
        return go
    return [job(k) for k in range(0, len(sts), per)]


def run(ctx):
    q = ctx.quick
    ctx.assumptions += ["arguments whose types a conversion accepts (after the default promotions; signed and unsigned of one size alike)",
                        "program and decompressor run in the same locale", "floating-point digits as rendered by the C library, one conversion at a time"]
    n = 320 if q else 2000
    rt, a, u, lg, vl = parallel([lambda: Runtime(ctx), lambda: gen(ctx, "PrintGenC.cfg", n, 1), lambda: gen(ctx, "PrintGenU.cfg", n // 4, 2), lambda: gen(ctx, "PrintGenL.cfg", 16 if q else 100, 3), lambda: gen(ctx, "PrintGenV.cfg", 3 if q else 16, 4)])
    ctx.note("built runtime; %d statements generated" % (len(a) + len(u) + len(lg)))
    if ctx.prop == "C17":
        c18.layouts(ctx, rt, c18.generate(ctx, 32 if q else 300, "SourceGenC.cfg", 5), "cpp17", "C++17 front end, source files")
        ops = ("oracle", "text", "lost", "crash", "log")
        judge(ctx, cpp_jobs(ctx, rt, a, 40, EMPTY, "a") + cpp_jobs(ctx, rt, u, 40, UTF8, "u") + cpp_jobs(ctx, rt, lg, 4, EMPTY, "l") + cpp_jobs(ctx, rt, vl, 1, EMPTY, "v"), ops, "C++17 front end")
    else:
        ops = ("values", "lost", "crash", "log")
        judge(ctx, cpp_jobs(ctx, rt, a[:n // 2], 40, EMPTY, "a", False) + cpp_jobs(ctx, rt, lg, 8, EMPTY, "l") + cpp_jobs(ctx, rt, vl, 1, EMPTY, "v", False) + cpp_jobs(ctx, rt, u, 40, UTF8, "u"), ops, "iterative reader, C++17 front end")
        judge(ctx, pre_jobs(ctx, rt, a[n // 2:], 40, EMPTY, "pa") + pre_jobs(ctx, rt, lg, 8, EMPTY, "pl", False) + pre_jobs(ctx, rt, vl, 1, EMPTY, "pv"), ops, "iterative reader, preprocessor")
    ctx.samples += ['"%s"' % fmt(s) for s in (a + u + lg)[::max(1, len(a + u + lg) // 6)]][:6]
