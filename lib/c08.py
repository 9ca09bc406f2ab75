"""C08: the real staging buffer against TraceQueue: behaviours generated by TLC (QueueGen) replayed
sequentially, and concurrent executions under the controlled scheduler and free-running."""
import collections
import random
import re
import rt
from vc import *

OPS = ("rc", "rr", "cc", "cr", "pc", "pr", "rd", "xc", "xr", "end", "bad", "crash", "uaf")


def build(ctx, seqs, sims, frees, coros):
    d = ctx.sub("build")
    jobs, links = [], []
    gen = generated(ctx)
    jobs.append(cc(H + "/vsched.cc", d + "/vsched.o", ["-O2"]))
    jobs.append(cc(H + "/vfree.cc", d + "/vfree.o", ["-O2"]))
    for kind, sizes in (("q", seqs), ("s", sims), ("f", frees), ("c", coros)):
        for n in sizes:
            fl = {"q": ["-O1", "-DTESTING=1", "-DQSCRIPT"], "s": ["-O1", "-DTESTING=1", "-fsanitize=thread"],
                  "f": ["-O3", "-DTESTING=1", "-DNDEBUG", "-DQFREE"],
                  "c": ["-O1", "-DTESTING=1", "-DQCORO", "-fsanitize=thread"]}[kind] + bufs(n, 1100)
            objs = []
            for f in rt.CORE:
                o = "%s/%s%d-%s.o" % (d, kind, n, f)
                jobs.append(cc("%s/%s.cc" % (RT, f), o, fl))
                objs.append(o)
            o = "%s/%s%d-qdrv.o" % (d, kind, n)
            jobs.append(cc(H + "/qdrv.cc", o, fl))
            objs.append(o)
            exe = "%s/%s%d" % (d, {"q": "qseq", "s": "vsim-q", "f": "vfree-q", "c": "qcoro"}[kind], n)
            extra = {"q": [], "s": ["-Wl,--wrap=memcpy", "-Wl,--wrap=memmove", "-rdynamic", d + "/vsched.o"], "f": [d + "/vfree.o"], "c": []}[kind]
            links.append(["g++"] + objs + extra + [gen, "-o", exe, "-lpthread", "-ldl", "-lrt"])
    for f in ["Cycles", "Util", "Log"]:
        jobs.append(cc("%s/%s.cc" % (RT, f), "%s/d-%s.o" % (d, f), ["-O1"]))
    jobs.append(cc(H + "/vdecode.cc", d + "/vdecode.o", ["-O1"]))
    links.append(["g++", d + "/vdecode.o"] + ["%s/d-%s.o" % (d, f) for f in ["Cycles", "Util", "Log"]] +
                 [gen, "-o", d + "/vdecode", "-lpthread", "-lrt"])
    parallel(jobs)
    parallel([(lambda c=c: sh(c)) for c in links])
    ctx.note("built")
    return d


def walks(ctx, n, maxlen):
    """walks over the graph printed by QueueGen that cover every transition"""
    r = tlc(ctx, "QueueGen", "QueueGen%d.cfg" % n, workers=1)
    if not r.ok:
        raise CheckError("QueueGen failed:\n" + r.out[-2000:])
    ctx.states += r.distinct
    ctx.transitions += r.generated
    succ = collections.defaultdict(list)
    init = None
    for m in re.finditer(r'^<<"E", <<([\d, ]+)>>, "(\w)", (\d+), <<([\d, ]+)>>>>$', r.out, re.M):
        a, op, k, b = m.group(1), m.group(2), m.group(3), m.group(4)
        init = init or a
        succ[a].append((op + k, b))
    # breadth-first tree from init
    parent = {init: None}
    todo = collections.deque([init])
    while todo:
        a = todo.popleft()
        for op, b in succ[a]:
            if b not in parent:
                parent[b] = (a, op)
                todo.append(b)
    covered = {a: 0 for a in succ}       # index of next uncovered out-edge
    left = {a: list(range(len(succ[a]))) for a in succ}
    total = sum(len(v) for v in succ.values())
    done = 0
    out = []

    def path(a):
        p = []
        while parent[a]:
            a, op = parent[a]
            p.append(op)
        return p[::-1]
    order = list(succ)
    oi = 0
    while done < total:
        while not left[order[oi]]:
            oi += 1
        a = order[oi]
        w = path(a)
        while len(w) < maxlen:
            if left[a]:
                i = left[a].pop()
                done += 1
                op, a = succ[a][i]
                w.append(op)
            else:        # nearest uncovered edge, a few steps away
                seen = {a: None}
                q = collections.deque([a])
                hit = None
                while q and len(seen) < 400:
                    x = q.popleft()
                    if left[x]:
                        hit = x
                        break
                    for op, b in succ[x]:
                        if b not in seen:
                            seen[b] = (x, op)
                            q.append(b)
                if hit is None:
                    break
                p = []
                x = hit
                while seen[x]:
                    x, op = seen[x]
                    p.append(op)
                w += p[::-1]
                a = hit
        out.append(" ".join(w))
    ctx.add("model_transitions_replayed", total)
    return out


def replay(ctx, d, n, ws):
    chunks = [ws[i::NCPU] for i in range(NCPU)]
    import json
    outs = parallel([(lambda c=c: sh([d + "/qseq%d" % n], cwd=ctx.sub("seq%d" % i), stdin_text=("\n".join(c) + "\n").encode()).stdout.decode())
                     for i, c in enumerate(chunks) if c])
    traces, src = [], []
    for c, o in zip([c for c in chunks if c], outs):
        lines = o.split("\n")
        for w, line in zip(c, lines):
            traces.append(json.loads(line))
            src.append(w)
    rej = validate(ctx, "TraceQueue", "TraceQueue.cfg", traces, env=dict(RING=str(n)), shards=NCPU)
    for i, pos, names in rej[:3]:
        ctx.violation("%s: ring of %d bytes, replayed behaviour %s, event %d: %s" % (
            sorted(names), n, src[i][:300], pos, json.dumps(traces[i][pos - 1])[:200]), dict(ring=n, script=src[i], pos=pos, trace=traces[i]))
    ctx.add("behaviours_replayed", len(traces))
    ctx.samples.append(dict(script=src[0][:300], events=traces[0][:10]))
    ctx.note("ring %d: %d behaviours replayed, %d rejected" % (n, len(traces), len(rej)))


def scen(rng, n, big):
    recs = []
    for _ in range(rng.randint(2, 9 if not big else 40)):
        k = rng.randint(1, (n - 1) // 2)
        m = k if rng.random() < 0.7 else rng.randint(1, k)
        recs.append("%d.%d" % (k, m))
    pat = [str(rng.choice([0, 1, 2, n // 4, n // 2, n, n])) for _ in range(rng.randint(1, 4))]
    if all(p == "0" for p in pat):
        pat.append("1")
    return " ".join(recs) + " ; " + " ".join(pat)


def conc_jobs(rng, n, count):
    jobs = []
    while len(jobs) < count:
        sc = scen(rng, n, False)
        for _ in range(8):
            jobs.append("q%d_%d %d %d %g %g %g %g %d %d %d %d %d 0 - | %s" % (
                n, len(jobs), rng.randrange(1 << 30), rng.choice([0, 1, 1]), rng.choice([0.05, 0.2, 0.5]), 0.3, 0.1, 0.02, 0,
                rng.randint(0, 6), rng.choice([100, 300, 800]), 600000, 0, sc))
    return jobs


def conc_systematic(ctx, d, n, rng, limit):
    jobs = []
    h = (n - 1) // 2
    scs = ["%d.%d %d.%d %d.%d ; %d" % (h, h, h, h, h, h, n), "%d.%d %d.%d %d.%d ; 1 0 %d" % (h - 1, h - 1, h, 1, h, h, n),
           "2.2 %d.%d %d.%d 3.3 ; 2" % (h, h, h, h)]
    base = ["z%d 1 2 0 0 0 0 0 0 0 600000 0 0 - | %s" % (i, s) for i, s in enumerate(scs)]
    recs = rt.run_sim(ctx, d, "vsim-q%d" % n, base)
    for i, s in enumerate(scs):
        m = recs["z%d" % i]["shared"] + 20
        pts = [(p, t) for p in range(1, m) for t in range(3)]
        if len(pts) > limit // 6:
            pts = rng.sample(pts, limit // 6)
        for p, t in pts:
            jobs.append("y%d %d 2 0 0 0 0 0 1 0 600000 0 0 %d:%d | %s" % (len(jobs), rng.randrange(1 << 20), p, t, s))
        for _ in range(limit // 3 - len(pts)):
            c = sorted(rng.sample(range(1, m), rng.choice([2, 2, 3])))
            jobs.append("y%d %d 2 0 0 0 0 0 1 0 600000 0 0 %s | %s" % (
                len(jobs), rng.randrange(1 << 20), ",".join("%d:%d" % (p, rng.randrange(4)) for p in c), s))
    return jobs


def qtrace(r):
    ev = [dict(e) for e in r["ev"] if e["op"] in OPS]
    for e in ev:
        if e["op"] in ("crash", "uaf"):
            e["k"] = e["op"]
    return ev


def check(ctx, recs, exe, d, n):
    import json
    seen, group = set(), []
    for r in recs.values():
        t = qtrace(r)
        h = digest(t)
        if h not in seen:
            seen.add(h)
            group.append((t, r))
    rej = validate(ctx, "TraceQueue", "TraceQueue.cfg", [g[0] for g in group], env=dict(RING=str(n)))
    ctx.add("runs", len(recs))
    ctx.add("distinct_traces", len(seen))
    for i, pos, names in rej:
        t, r = group[i]
        for _ in range(1 if exe.startswith("vsim") else 3):
            again = rt.run_sim(ctx, d, exe, [r["job"].replace(" 600000 ", " 6000000 ", 1)], workers=1, limit=60)[r["id"]]
            rj = validate(ctx, "TraceQueue", "TraceQueue.cfg", [qtrace(again)], env=dict(RING=str(n)))
            if rj:
                ctx.violation("%s broken at event %d of %s: %s" % (sorted(names), pos, r["job"].strip(), json.dumps(t[pos - 1])[:200]),
                              dict(exe=exe, ring=n, job=r["job"], pos=pos, trace=t))
                break
        if len(ctx.violations) >= 3:
            break


def coro(ctx, d, n, rng, scenarios, limit):
    """all schedules with at most two preemptions (and samples with more) of small scenarios"""
    import json
    lines = ["%d %d %s" % (rng.randrange(1 << 30), limit, sc) for sc in scenarios]
    outs = parallel([(lambda l=l, i=i: sh([d + "/qcoro%d" % n], cwd=ctx.sub("coro%d" % i), stdin_text=(l + "\n").encode(),
                                          check=False)) for i, l in enumerate(lines)])
    traces, src = [], []
    for l, p in zip(lines, outs):
        o = p.stdout.decode()
        if p.returncode:
            ctx.violation("the buffer driver crashed (%d) on %s" % (p.returncode, l), dict(ring=n, scenario=l))
        for line in o.split("\n"):
            if line.startswith("D "):
                ctx.add("runs", int(line[2:]))
            elif line.startswith("T ") and line.endswith("]"):
                sched, t = line[2:].split("|", 1)
                traces.append(json.loads(t))
                src.append((l, sched))
    if len(traces) > 24000:
        keep = rng.sample(range(len(traces)), 24000)
        traces, src = [traces[i] for i in keep], [src[i] for i in keep]
    ctx.add("distinct_traces", len(traces))
    rej = validate(ctx, "TraceQueue", "TraceQueue.cfg", traces, env=dict(RING=str(n)), shards=NCPU)
    for i, pos, names in rej[:3]:
        ctx.violation("%s: ring of %d, scenario %s, preemptions at %s, event %d: %s" % (
            sorted(names), n, src[i][0], src[i][1], pos, json.dumps(traces[i][pos - 1])[:200]),
            dict(ring=n, scenario=src[i][0], schedule=src[i][1], pos=pos, trace=traces[i]))
    ctx.note("coroutines, ring %d: %d runs so far, %d traces validated, %d rejected" % (n, ctx.cov["runs"], len(traces), len(rej)))


def run(ctx):
    rng = random.Random(ctx.seed * 7919 + 8)
    seqs, sims, frees = ([8], [20, 33], [48]) if ctx.quick else ([8, 12], [20, 33], [48])
    coros = [9, 16]
    d = build(ctx, seqs, sims, frees, coros)
    for m in ("StagingQ", "StagingW", "StagingL") + (() if ctx.quick else ("StagingT",)):
        model_check(ctx, "StagingBuffer", m + ".cfg")
    r = tlc(ctx, "StagingBuffer", "StagingNF.cfg")
    if "Invariant Fifo is violated" not in r.out:
        raise CheckError("model without fences not rejected")
    for n in seqs:
        replay(ctx, d, n, walks(ctx, n, 60))
    if ctx.violations:
        return
    for n in coros:
        h = (n - 1) // 2
        fixed = ["%d.%d %d.%d %d.%d ; %d" % (h, h, h, h, h, h, n), "%d.%d %d.%d %d.%d ; 1 0 %d" % (h - 1, h - 1, h, 1, h, h, n),
                 "2.2 %d.%d %d.%d 3.3 ; 2" % (h, h, h, h), "3.3 3.2 3.3 %d.%d ; %d" % (h, h, n)]
        coro(ctx, d, n, rng, fixed + [scen(rng, n, False) for _ in range(12)], 6000 if ctx.quick else 60000)
        if ctx.violations:
            return
    for rd in range(1 if ctx.quick else 10):
        for n in sims:
            jobs = conc_jobs(rng, n, 500) + conc_systematic(ctx, d, n, rng, 400)
            recs = rt.run_sim(ctx, d, "vsim-q%d" % n, jobs)
            check(ctx, recs, "vsim-q%d" % n, d, n)
            rt_sample = list(recs.values())[0]
            ctx.samples.append(dict(job=rt_sample["job"].strip(), events=qtrace(rt_sample)[:10]))
            ctx.note("vsim-q%d: %d runs, %d distinct so far" % (n, len(recs), ctx.cov["distinct_traces"]))
            if ctx.violations:
                return
        n = frees[0]
        jobs = ["f%d | %s" % (i, scen(rng, n, True)) for i in range(400)]
        recs = rt.run_sim(ctx, d, "vfree-q%d" % n, jobs, deep=False)
        check(ctx, recs, "vfree-q%d" % n, d, n)
        ctx.note("vfree-q%d: %d runs" % (n, len(recs)))
        if ctx.violations:
            return
    ctx.assumptions += ["schedules of the controlled scheduler are sequentially consistent; late and reordered stores are covered by the model (StagingW) and by free runs on this machine only",
                        "records are smaller than half the ring (larger ones can block forever by design)"]
