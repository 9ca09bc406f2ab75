"""C16: the analyses of format strings, against Format."""
from vc import *
from logf import CORE


def build(ctx):
    d = ctx.sub("build")
    none = generated(ctx)
    fl = ["-O1"]
    core = ["%s/%s.o" % (d, s) for s in CORE]
    parallel([cc("%s/%s.cc" % (RT, s), o, fl) for s, o in zip(CORE, core)] + [cc(H + "/fdrv.cc", d + "/fdrv.o", fl)])
    sh(["g++", d + "/fdrv.o", none] + core + ["-o", d + "/fdrv", "-lpthread", "-lrt", "-ldl"])
    ctx.note("built driver")
    return d + "/fdrv"


def gen(ctx, cfg, simulate=None):
    r = tlc(ctx, "FormatGen", cfg, workers=4, simulate="num=%d" % simulate if simulate else None,
            extra=(["-depth", "30"] if simulate else []) + ["-seed", str(ctx.seed * 103 + 7)], timeout=800)
    got = sorted(set(re.findall(r'^"(\{.*\})"$', r.out, re.M)))
    if not got or (not simulate and not r.ok) or "is violated" in r.out:
        raise CheckError("FormatGen/%s failed:\n%s" % (cfg, r.out[-2000:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.note("FormatGen/%s: %d formats, each read back as it was written" % (cfg, len(got)))
    return [json.loads(g.replace('\\"', '"').replace("\\\\", "\\")) for g in got]


SIMPLE = {10: "\\n", 9: "\\t", 92: "\\\\", 34: '\\"'}


def literal(bs):
    """bytes as the inside of a string literal"""
    return "".join(SIMPLE[b] if b in SIMPLE else chr(b) if 32 <= b < 127 else "\\%03o" % b for b in bs)


def shown(bs):
    return '"%s"' % literal(bs)


def run(ctx):
    q = ctx.quick
    ctx.assumptions += ["formats the C standard defines; %n and glibc extensions are not accepted by NanoLog"]
    drv, e, s, r = parallel([lambda: build(ctx), lambda: gen(ctx, "FormatGenE.cfg"), lambda: gen(ctx, "FormatGenS.cfg" if q else "FormatGenS4.cfg"),
                             lambda: gen(ctx, "FormatGenR.cfg", 3000 if q else 30000)])
    texts = sorted(set(tuple(x["text"]) for x in e + s + r))
    n = (len(texts) + NCPU - 1) // NCPU
    chunks = [texts[i:i + n] for i in range(0, len(texts), n)]
    script = os.path.join(VERIF, "lib", "fmtparse.py")

    def one(c):
        p = sh([drv], stdin_text=("\n".join(bytes(t).hex() for t in c) + "\n").encode(), timeout=600, check=False)
        out = [json.loads(x) for x in p.stdout.decode("latin1").split("\n") if x.endswith("}")]
        # a crash loses the rest of the chunk: the format it happened at counts
        a = [[dict(op="cpp17", text=list(t), **o), dict(op="micro", text=list(t), **o)] for t, o in zip(c, out)]
        if len(out) < len(c):
            a.append([dict(op="crash", text=list(c[len(out)]))])
        p = sh(["python3", "-W", "ignore", script, os.path.join(REPO, "preprocessor")], timeout=600, check=False,
               stdin_text=("\n".join(literal(t).encode().hex() for t in c) + "\n").encode())
        out = [json.loads(x) for x in p.stdout.decode("latin1").split("\n") if x.endswith("}")]
        b = [[dict(op="script", text=list(t), error=o.get("error", ""), fragments=o.get("fragments", []))] for t, o in zip(c, out)]
        if len(out) < len(c):
            b.append([dict(op="crash", text=list(c[len(out)]), stderr=p.stderr.decode("latin1")[-300:])])
        return a + b
    traces = [t for o in parallel([(lambda c=c: one(c)) for c in chunks]) for t in o]
    ctx.note("%d formats analysed, %d traces" % (len(texts), len(traces)))
    for i, pos, names in validate(ctx, "TraceFormat", "TraceFormat.cfg", traces, shards=NCPU):
        ev = traces[i][pos - 1]
        ctx.violation("%s of the format %s: wrong %s" % ({"cpp17": "C++17 analysis", "micro": "decoder's parse", "script": "preprocessor's parse"}.get(ev["op"], "analysis"),
                                                        shown(ev["text"]), ", ".join(sorted(names))), ev, key="format:%s:%s" % (ev["op"], bytes(ev["text"]).hex()))
    ctx.add("formats", len(texts))
    ctx.samples += [shown(t) for t in texts[::max(1, len(texts) // 6)]][:6]
