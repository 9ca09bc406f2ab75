"""C10: the real encoder driven through operation sequences generated from EncGen; every call and the decoded
result validated by TLC against Encoder."""
import random
from vc import *
from logf import CORE


def build(ctx):
    d = ctx.sub("build")
    fl = ["-O1", "-DPREPROCESSOR_NANOLOG"] + bufs(4096, 8192)
    src = os.path.join(H, "egen.cc")
    parser = os.path.join(REPO, "preprocessor", "parser.py")
    sh(["g++", "-std=c++17", "-include", "array", "-E", "-I" + RT, src, "-o", d + "/egen.cc.i"])
    sh(["python3", parser, "--mapOutput=" + d + "/egen.map", d + "/egen.cc.i"], cwd=d)
    sh(["python3", parser, "--combinedOutput=" + d + "/GeneratedCode.cc", d + "/egen.map"], cwd=d)
    jobs, objs = [], [d + "/gen.o", d + "/drv.o"]
    for f in CORE:
        objs.append("%s/%s.o" % (d, f))
        jobs.append(cc("%s/%s.cc" % (RT, f), objs[-1], fl))
    jobs += [cc(d + "/GeneratedCode.cc", d + "/gen.o", fl), cc(os.path.join(H, "edrv.cc"), d + "/drv.o", fl + ["-Wno-all"])]
    parallel(jobs)
    sh(["g++"] + objs + ["-o", d + "/edrv", "-lpthread", "-lrt", "-ldl"])
    ctx.note("built edrv")
    return d + "/edrv"


def text(ops):
    out = [ops[0]["o"]]
    for o in ops[1:]:
        out.append({"B": "B%d" % o["a"], "D": "D%d" % o["a"], "M": "M%d.%d" % (o["a"], o["b"]),
                    "E": "E%d.%d.%d" % (o["a"], o["a"] % 2, o["c"]), "C": "C%d.%d" % (o["a"], o["b"])}[o["o"]])
    return " ".join(out)


def sequences(ctx, cfg, simulate=None, limit=None):
    r = tlc(ctx, "EncGen", cfg, workers=4 if simulate else 1, simulate="num=%d" % (simulate // 4) if simulate else None,
            extra=["-depth", "70", "-seed", str(ctx.seed * 31 + 5)] if simulate else [], timeout=800)
    got = sorted(set(re.findall(r'^"(\[.*\])"$', r.out, re.M)))
    if not got or (not simulate and not r.ok):
        raise CheckError("EncGen/%s generated nothing:\n%s" % (cfg, r.out[-2000:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    out = [text(json.loads(g.replace('\\"', '"'))) for g in got]
    random.Random(ctx.seed).shuffle(out)
    ctx.note("EncGen/%s: %d sequences%s" % (cfg, len(out), " (%d used)" % limit if limit and limit < len(out) else ""))
    return out[:limit] if limit else out


def execute(ctx, exe, cases):
    n = max(1, (len(cases) + NCPU - 1) // NCPU)
    chunks = [cases[i:i + n] for i in range(0, len(cases), n)]
    outs = parallel([(lambda c=c, i=i: sh([exe], cwd=ctx.sub("run%d" % i), stdin_text=("\n".join(c) + "\n").encode(), timeout=880, check=False))
                     for i, c in enumerate(chunks)])
    tr = []
    for c, p in zip(chunks, outs):
        lines = p.stdout.decode("latin1").split("\n")
        for i, case in enumerate(c):
            if i >= len(lines) or not lines[i]:
                raise CheckError("edrv stopped early at %s" % case)
            if lines[i].startswith("@"):
                if int(lines[i][1:]) >> 8 == 3:
                    raise CheckError("edrv could not run %s" % case)
                tr.append([dict(op="crash", status=int(lines[i][1:]))])
            else:
                tr.append(json.loads(lines[i]))
    return tr


def run(ctx):
    ctx.assumptions += ["a message needs at most twice its input size and 32 bytes of free output"]
    q = ctx.quick
    model_check(ctx, "Encoder", "MCEncoder.cfg", workers=4)
    exe, a, b = parallel([lambda: build(ctx), lambda: sequences(ctx, "EncGenE.cfg", limit=8000 if q else 100000),
                          lambda: sequences(ctx, "EncGenR.cfg", simulate=2400 if q else 30000)])
    cases = a + b
    tr = execute(ctx, exe, cases)
    rej = validate(ctx, "TraceEncoder", "TraceEncoder.cfg", tr, shards=NCPU)
    for i, pos, names in rej[:5]:
        ctx.violation("%s: event %d %s of %s" % (sorted(names), pos, json.dumps(tr[i][pos - 1])[:250], cases[i][:300]),
                      dict(case=cases[i], trace=tr[i], position=pos))
    ctx.add("encoder_calls", sum(len(t) for t in tr))
    ctx.add("messages_decoded", sum(t[-1].get("n", 0) for t in tr))
    ctx.samples.append(dict(case=cases[0], trace=tr[0][:6]))
    ctx.note("%d sequences, %d calls validated, %d rejected" % (len(tr), sum(len(t) for t in tr), len(rej)))
