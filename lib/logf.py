"""C11-C14: log-file layouts generated by TLC, written with the real Encoder, decoded with the real Decoder,
results validated by TLC against LogFile (TraceDecode)."""
import random
from vc import *

CORE = ["Cycles", "Util", "Log", "RuntimeLogger", "NanoLog", "TimeTrace"]


def build(ctx, src="ldrv.cc", exe="ldrv", staging=4096, output=8192, flags=(), extra_objs=()):
    d = ctx.sub("build-" + exe)
    gen = generated(ctx, name="gen-" + exe)
    fl = ["-O1"] + bufs(staging, output) + list(flags)
    objs, jobs = [], []
    for f in CORE:
        o = "%s/%s.o" % (d, f)
        jobs.append(cc("%s/%s.cc" % (RT, f), o, fl))
        objs.append(o)
    jobs.append(cc(os.path.join(H, src), d + "/drv.o", fl))
    parallel(jobs)
    sh(["g++"] + objs + [d + "/drv.o"] + list(extra_objs) + [gen, "-o", d + "/" + exe] + list(flags) + ["-lpthread", "-lrt", "-ldl"])
    ctx.note("built " + exe)
    return d + "/" + exe


def token(p):
    if p["k"] == "ck":
        return "K%d" % p["n"]
    if p["k"] == "dic":
        return "D%d" % p["n"]
    if p["k"] == "pad":
        return "P%d" % p["n"]
    return ("X" if p.get("x") else "E") + "%d.%d:%s" % (p["t"], 1 if p["w"] else 0, ",".join("%d.%d" % (m[0], m[1]) for m in p["m"]))


def layouts(ctx, module, cfg, simulate=None, limit=None):
    """layouts printed by a generator specification; simulate: number of random ones"""
    workers = 4 if simulate else 1
    extra = ["-depth", "40", "-seed", str(ctx.seed * 7919 + 11)] if simulate else []
    r = tlc(ctx, module, cfg, workers=workers, simulate="num=%d" % max(1, simulate // workers) if simulate else None, extra=extra, timeout=800)
    got = re.findall(r'^"(\[.*\])"$', r.out, re.M)
    if not got or (not simulate and not r.ok):
        raise CheckError("%s/%s generated nothing:\n%s" % (module, cfg, r.out[-2000:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    out = sorted(set(" ".join(token(p) for p in json.loads(g.replace('\\"', '"'))) for g in got))
    random.Random(ctx.seed).shuffle(out)
    n = len(out)
    if limit:
        out = out[:limit]
    ctx.note("%s/%s: %d layouts%s" % (module, cfg, len(out), "" if len(out) == n else " of %d" % n))
    ctx.add("layouts_generated", n)
    return out


def decode(ctx, exe, cases):
    """returns [(case, {parts, size, runs})]"""
    n = NCPU
    size = max(1, (len(cases) + n - 1) // n)
    chunks = [cases[i:i + size] for i in range(0, len(cases), size)]
    outs = parallel([(lambda c=c, i=i: sh([exe], cwd=ctx.sub("run%d" % i), stdin_text=("\n".join(c) + "\n").encode(), timeout=880, check=False))
                     for i, c in enumerate(chunks)])
    res = []
    for c, p in zip(chunks, outs):
        lines = p.stdout.decode("latin1").split("\n")
        k = 0
        for case in c:
            if k >= len(lines) or not lines[k]:
                raise CheckError("decoder driver stopped early (status %s) at %s" % (p.returncode, case[:200]))
            line = lines[k]
            k += 1
            m = re.match(r"(.*)@(\d+)$", line)
            if m:                          # the process running this case died
                st = int(m.group(2))
                if not m.group(1) or (st >> 8) == 3:
                    raise CheckError("could not materialise %s" % case[:300])
                part = m.group(1)
                j = part[:part.rindex("\"runs\":[")]
                res.append((case, dict(json.loads(j + "\"runs\":[]}"), runs=[dict(mode="crash", status=st)])))
            else:
                res.append((case, json.loads(line)))
    return res


def judge(ctx, exe, cases, modes, ignore, what):
    if ctx.violations:                   # one family of counterexamples is enough
        return
    res = decode(ctx, exe, cases)
    traces = []
    for case, r in res:
        r["runs"] = [x for x in r["runs"] if x["mode"] in modes or x["mode"] == "crash"]
        traces.append(r)
    rej = validate_runs(ctx, "TraceDecode", "TraceDecode.cfg", traces)
    bad = 0
    for i, pos, names in rej:
        if names <= ignore:
            continue
        bad += 1
        if bad <= 5:
            run = traces[i]["runs"][pos - 1]
            ctx.violation("%s: %s of layout %s: %s" % (sorted(names - ignore), run["mode"], res[i][0][:300], json.dumps(run)[:400]),
                          dict(layout=res[i][0], run=run, parts=traces[i].get("parts")))
    ctx.add("decodings", sum(len(t["runs"]) for t in traces))
    if traces:
        ctx.samples.append(dict(layout=res[0][0], run=traces[0]["runs"][:1]))
    ctx.note("%s: %d layouts, %d decodings validated, %d rejected" % (what, len(traces), sum(len(t["runs"]) for t in traces), bad))


def validate_runs(ctx, module, cfg, traces):
    """like vc.validate, splitting off rejected runs so that later runs of the same layout are judged as well"""
    rej = validate(ctx, module, cfg, traces, shards=NCPU)
    return rej


def prepare(ctx, *gens):
    """builds the driver and generates the layouts side by side"""
    r = parallel([lambda: build(ctx)] + [(lambda g=g: layouts(ctx, *g[0], **g[1])) for g in gens])
    return r


def G(module, cfg, **kw):
    return ((module, cfg), kw)


def c11(ctx):
    q = ctx.quick
    exe, l, big, a, b, c = prepare(ctx, G("LogGen", "LogGenL.cfg", simulate=200 if q else 2000), G("LogGen", "LogGenB.cfg", simulate=40, limit=24 if q else None),
                           G("LogGen", "LogGenS.cfg", limit=2500 if q else None),
                           G("LogGen", "LogGenR.cfg", simulate=1200 if q else 12000),
                           G("LogGen", "LogGenXR.cfg", simulate=600 if q else 6000))
    plain = {"unord", "iter"}
    judge(ctx, exe, l, plain, set(), "long names, formats and extents")
    judge(ctx, exe, big, plain, set(), "large dictionaries")
    judge(ctx, exe, a, plain, set(), "all short files")
    judge(ctx, exe, b, plain, set(), "random files")
    judge(ctx, exe, ["+reuse " + x for x in c], plain, set(), "reused decoder")


def c12(ctx):
    for c in ("ChronoThread", "ChronoSort", "ChronoExec"):
        model_check(ctx, "ChronoImpl", c + ".cfg")
    q = ctx.quick
    if not q:
        for c in ("ChronoOldFlag", "ChronoOldShift", "ChronoOldExec", "ChronoOldTies"):
            r = tlc(ctx, "ChronoImpl", c + ".cfg", workers=NCPU)
            if r.ok:
                raise CheckError("%s should be violated" % c)
            ctx.add("flawed_algorithms_rejected_by_the_model")
    exe, a, b, c, d, e = prepare(ctx, G("ChronoGen", "ChronoGenE.cfg"), G("ChronoGen", "ChronoGenE5.cfg", limit=4000 if q else 40000),
                                 G("ChronoGen", "ChronoGenR.cfg", simulate=1600 if q else 16000),
                                 G("ChronoGen", "ChronoGenX.cfg", simulate=400 if q else 4000),
                                 G("LogGen", "LogGenR.cfg", simulate=800 if q else 8000))
    judge(ctx, exe, a, {"chrono"}, set(), "all short nearly sorted files")
    judge(ctx, exe, b, {"chrono"}, set(), "longer nearly sorted files")
    judge(ctx, exe, c, {"chrono"}, set(), "random nearly sorted files")
    judge(ctx, exe, ["+reuse " + x for x in d], {"chrono"}, set(), "several executions, reused decoder")
    judge(ctx, exe, e, {"chrono"}, set(), "random files")


def c13(ctx):
    q = ctx.quick
    exe, a, b, c = prepare(ctx, G("LogGen", "LogGenX.cfg", limit=2500 if q else None),
                           G("LogGen", "LogGenXR.cfg", simulate=1600 if q else 16000),
                           G("ChronoGen", "ChronoGenX.cfg", simulate=1200 if q else 12000))
    ign = {"sorted", "threadorder"}
    allm = {"unord", "iter", "chrono"}
    judge(ctx, exe, a, allm, ign, "all short files of several executions")
    judge(ctx, exe, b, allm, ign, "random files of several executions")
    judge(ctx, exe, c, allm, ign, "scan passes across executions")


def c14(ctx):
    q = ctx.quick
    exe, a, b, c = prepare(ctx, G("LogGen", "LogGenS.cfg", limit=250 if q else 2000),
                           G("LogGen", "LogGenXR.cfg", simulate=120 if q else 1500),
                           G("ChronoGen", "ChronoGenX.cfg", simulate=160 if q else 1500))
    ign = {"sorted", "threadorder"}
    allm = {"unord", "iter", "chrono"}
    judge(ctx, exe, ["+cut " + x for x in a], allm, ign, "every prefix of short files")
    judge(ctx, exe, ["+cut " + x for x in b], allm, ign, "every prefix of random files")
    judge(ctx, exe, ["+cut " + x for x in c], allm, ign, "every prefix, several passes and executions")


def run(ctx):
    ctx.assumptions += ["the file contains only what the encoder writes (plus zero padding)"]
    dict(C11=c11, C12=c12, C13=c13, C14=c14)[ctx.prop](ctx)
