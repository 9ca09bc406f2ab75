"""C19: timestamps through the real Encoder and Decoder and their rendering, against Clock."""
import calendar
import random
from vc import *
from logf import CORE

TZ = dict(UTC="UTC0", IST="IST-5:30", NPT="NPT-5:45", WEST="WEST11", EST="EST5EDT,M3.2.0,M11.1.0", AEST="AEST-10AEDT,M10.1.0,M4.1.0")


def build(ctx):
    d = ctx.sub("build")
    fl = ["-O1"] + bufs(4096, 8192)
    pre = fl + ["-DPREPROCESSOR_NANOLOG"]
    parser = os.path.join(REPO, "preprocessor", "parser.py")

    def generate(n, src, flags):
        def go():
            i = "%s/%s.i" % (d, n)
            sh(["g++", "-std=c++17", "-include", "array", "-E", "-I" + RT] + flags + [src, "-o", i])
            sh(["python3", parser, "--mapOutput=%s/%s.map" % (d, n), i], cwd=d)
            sh(["python3", parser, "--combinedOutput=%s/%sGen.cc" % (d, n), "%s/%s.map" % (d, n)], cwd=d)
            sh(["g++"] + BASEFLAGS + pre + ["-c", "%s/%sGen.cc" % (d, n), "-o", "%s/%sGen.o" % (d, n)])
        return go
    none = generated(ctx)
    parallel([generate("egen.cc", H + "/egen.cc", []), generate("tlive.cc", H + "/tlive.cc", ["-DPRE"])])
    jobs, core = [], {"p": [], "c": []}
    for k, f in (("p", pre), ("c", fl)):
        for s in CORE:
            core[k].append("%s/%s%s.o" % (d, k, s))
            jobs.append(cc("%s/%s.cc" % (RT, s), core[k][-1], f))
    jobs += [cc(H + "/tdrv.cc", d + "/tdrv.o", pre), cc(H + "/tlive.cc", d + "/tlivec.o", fl), cc(H + "/tread.cc", d + "/tread.o", fl),
             lambda: sh(["g++", "-std=c++17", "-w", "-O1", "-fpreprocessed", "-x", "c++", "-c", injected(d, "tlive.cc"), "-o", d + "/tlivep.o"])]
    parallel(jobs)
    lk = ["-lpthread", "-lrt", "-ldl"]
    parallel([lambda: sh(["g++", d + "/tdrv.o", d + "/egen.ccGen.o"] + core["p"] + ["-o", d + "/tdrv"] + lk),
              lambda: sh(["g++", d + "/tlivep.o", d + "/tlive.ccGen.o"] + core["p"] + ["-o", d + "/tlivep"] + lk),
              lambda: sh(["g++", d + "/tlivec.o", none] + core["c"] + ["-o", d + "/tlivec"] + lk),
              lambda: sh(["g++", d + "/tread.o", none] + core["c"] + ["-o", d + "/tread"] + lk)])
    ctx.note("built drivers")
    return d


def injected(d, n):
    """the parser writes the instrumented source next to its input"""
    for p in ("%s/%s.ii" % (d, n), "%s/%s.i.ii" % (d, n)):
        if os.path.exists(p):
            return p
    got = [x for x in os.listdir(d) if x.startswith(n)]
    raise CheckError("no instrumented source among %s" % got)


def gen(ctx, cfg, simulate=None):
    r = tlc(ctx, "ClockGen", cfg, workers=4 if simulate else 1, simulate="num=%d" % (simulate // 4) if simulate else None,
            extra=(["-depth", "30"] if simulate else []) + ["-seed", str(ctx.seed * 101 + 3)], timeout=800)
    got = sorted(set(re.findall(r'^"(\[.*\])"$', r.out, re.M)))
    if not got or (not simulate and not r.ok):
        raise CheckError("ClockGen/%s generated nothing:\n%s" % (cfg, r.out[-2000:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.note("ClockGen/%s: %d cases" % (cfg, len(got)))
    return [json.loads(g.replace('\\"', '"')) for g in got]


def seqs(ops):
    return " ".join(("n" if i and o["n"] else "") + "%x" % sum(x << (16 * (3 - k)) for k, x in enumerate(o["t"])) for i, o in enumerate(ops))


def shows(c):
    return "%s %d %d %s " % (TZ[c["zone"]], c["ref"]["day"], c["ref"]["sec"], c["rate"]) + \
        " ".join("%d.%d.%d.%d" % (o["off"]["day"], o["off"]["sec"], o["off"]["ns"], o["x"]) for o in c["offs"])


def limbs(x):
    return [(x >> 48) & 65535, (x >> 32) & 65535, (x >> 16) & 65535, x & 65535]


def live(ctx, d, k, rounds):
    """real threads, real clocks"""
    def one(n):
        w = ctx.sub("live%s%d" % (k, n))
        p = sh([d + "/tlive" + k], cwd=w, timeout=120, check=False)
        if p.returncode != 0:
            return [dict(op="crash", status=p.returncode)]
        rec = {}
        for line in p.stdout.decode().split("\n"):
            f = line.split()
            if len(f) == 12:
                rec[(int(f[0]), int(f[1]))] = [int(x) for x in f[2:]]
        if not rec:
            raise CheckError("tlive%s reported nothing" % k)
        got = []
        for line in sh([d + "/tread", "live1.log", "live2.log"], cwd=w, check=False).stdout.decode("latin1").split("\n"):
            m = re.match(r"(\d) (\d+) (\S+ \S+?)\.(-?\d+) .*\]: live (\d+) (\d+) ", line)
            if m:
                got.append(m)
        ev = [dict(op="count", want=len(rec), got=len(got))]
        first = {}
        for m in got:
            try:
                s = calendar.timegm(time.strptime(m.group(3), "%Y-%m-%d %H:%M:%S"))
            except ValueError:
                s = 0
            ns = int(m.group(4)) if 0 <= int(m.group(4)) < 10**9 else 0
            shown = s * 10**9 + ns
            r = rec.get((int(m.group(5)), int(m.group(6))))
            if r is None:
                ev.append(dict(op="count", want=0, got=1))
                continue
            N = 10**9
            r1, r2, m1, m2 = r[2] * N + r[3], r[4] * N + r[5], r[6] * N + r[7], r[8] * N + r[9]
            # the reference point has whole seconds: the clock shown may be up to a second behind
            low, high = r1 - 3 * N, r2 + 2 * N
            f = first.setdefault(m.group(1), (shown, m1, m2))
            tol = 2000000 + max(m2 - f[1], f[2] - m1) // 100
            low, high = max(low, f[0] + m1 - f[2] - tol), min(high, f[0] + m2 - f[1] + tol)
            ev.append(dict(op="live", before=limbs(r[0]), at=limbs(int(m.group(2))), after=limbs(r[1]), digits=len(m.group(4)),
                           shown=[s, ns], low=[low // N, low % N], high=[high // N, high % N]))
        return ev
    return parallel([(lambda n=n: one(n)) for n in range(rounds)], 4)


def run(ctx):
    q = ctx.quick
    ctx.assumptions += ["constant-rate time stamp counter, synchronised between cores", "reference points have whole seconds",
                        "beyond some weeks from the reference point double precision limits the rendering to 2^-52 of the distance"]
    model_check(ctx, "MCClock", "MCClock.cfg", workers=2)
    d, e, r, s = parallel([lambda: build(ctx), lambda: gen(ctx, "ClockGenE.cfg"), lambda: gen(ctx, "ClockGenR.cfg", 1600 if q else 20000),
                           lambda: [x for i in range(1 if q else 8) for x in gen(ctx, "ClockGenS.cfg")]])
    cases = []
    rng = random.Random(ctx.seed)
    for i, o in enumerate(e):
        cases += ["S %s %s" % (f, seqs(o)) for f in ("cpd" if not q else "cpd"[i % 3])]
    for i, o in enumerate(r):
        cases += ["S %s %s" % (f, seqs(o)) for f in "cpd"]
    for o in s:
        cases += ["R %s %s" % (f, shows(o[0])) for f in "cpd"]
    rng.shuffle(cases)
    n = (len(cases) + NCPU - 1) // NCPU
    chunks = [cases[i:i + n] for i in range(0, len(cases), n)]
    outs = parallel([(lambda c=c, i=i: sh([d + "/tdrv"], cwd=ctx.sub("run%d" % i), stdin_text=("\n".join(c) + "\n").encode(), timeout=880, check=False))
                     for i, c in enumerate(chunks)])
    tr = []
    for c, p in zip(chunks, outs):
        lines = p.stdout.decode("latin1").split("\n")
        for i, case in enumerate(c):
            if i >= len(lines) or not lines[i]:
                raise CheckError("tdrv stopped early at %s" % case[:200])
            if lines[i].startswith("@"):
                if int(lines[i][1:]) >> 8 == 3:
                    raise CheckError("tdrv could not run %s" % case[:200])
                tr.append([dict(op="crash", status=int(lines[i][1:]))])
            else:
                tr.append(json.loads(lines[i]))
    offline = len(tr)
    a, b = parallel([lambda: live(ctx, d, "c", 2 if q else 8), lambda: live(ctx, d, "p", 2 if q else 8)])
    tr += a + b
    rej = validate(ctx, "TraceClock", "TraceClock.cfg", tr, shards=NCPU)
    for i, pos, names in rej[:5]:
        c = cases[i] if i < offline else "live run"
        ctx.violation("%s: %s of %s" % (sorted(names), json.dumps(tr[i][pos - 1])[:300], c[:200]), dict(case=c, event=tr[i][pos - 1]))
    ctx.add("timestamps_round_tripped", sum(len(x.get("sent", [])) for t in tr for x in t))
    ctx.add("renderings_checked", sum(1 for t in tr for x in t if x["op"] == "show"))
    ctx.add("live_messages", sum(1 for t in tr[offline:] for x in t if x["op"] == "live"))
    ctx.samples.append(dict(case=cases[0][:200], trace=tr[0][:3]))
    ctx.note("%d cases, %d events validated, %d rejected" % (len(tr), sum(len(t) for t in tr), len(rej)))
