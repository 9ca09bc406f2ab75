"""Runtime checks: the real logger under a controlled scheduler (and free-running), every recorded
execution validated by TLC against NanoLogSpec."""
import json
import os
import random
import shutil
import subprocess
import tempfile
from vc import *

VARIANTS = {"a": (1024, 1100), "b": (2048, 4096), "d": (2048, 4096), "real": None}
CORE = ["Cycles", "Util", "Log", "NanoLog", "RuntimeLogger"]


def build(ctx, sims=("a", "b"), frees=("a", "real")):
    d = ctx.sub("build")
    jobs, links = [], []
    gen = generated(ctx)
    for v in sims:
        fl = ["-O1", "-DTESTING=1", "-fsanitize=thread"] + bufs(*VARIANTS[v]) + (["-include", H + "/direct.h", "-DRECORD_PRODUCER_STATS"] if v == "d" else [])
        for f in CORE:
            jobs.append(cc("%s/%s.cc" % (RT, f), "%s/s%s-%s.o" % (d, v, f), fl))
        jobs.append(cc(H + "/vdrv.cc", "%s/s%s-vdrv.o" % (d, v), fl))
        links.append(["g++", "-Wl,--wrap=memcpy", "-Wl,--wrap=memmove", "-rdynamic"] +
                     ["%s/s%s-%s.o" % (d, v, f) for f in CORE + ["vdrv"]] +
                     [d + "/vsched.o", gen, "-o", "%s/vsim-%s" % (d, v), "-lpthread", "-ldl", "-lrt"])
    if sims:
        jobs.append(cc(H + "/vsched.cc", d + "/vsched.o", ["-O2"]))
    for v in frees:
        fl = ["-O3", "-DNDEBUG"] + (bufs(*VARIANTS[v]) if VARIANTS[v] else [])
        for f in CORE:
            jobs.append(cc("%s/%s.cc" % (RT, f), "%s/f%s-%s.o" % (d, v, f), fl))
        jobs.append(cc(H + "/vdrv.cc", "%s/f%s-vdrv.o" % (d, v), fl))
        links.append(["g++"] + ["%s/f%s-%s.o" % (d, v, f) for f in CORE + ["vdrv"]] +
                     [d + "/vfree.o", gen, "-o", "%s/vfree-%s" % (d, v), "-lpthread", "-lrt"])
    if frees:
        jobs.append(cc(H + "/vfree.cc", d + "/vfree.o", ["-O2"]))
    for f in ["Cycles", "Util", "Log"]:
        jobs.append(cc("%s/%s.cc" % (RT, f), "%s/d-%s.o" % (d, f), ["-O1"]))
    jobs.append(cc(H + "/vdecode.cc", d + "/vdecode.o", ["-O1"]))
    links.append(["g++", d + "/vdecode.o"] + ["%s/d-%s.o" % (d, f) for f in ["Cycles", "Util", "Log"]] +
                 [gen, "-o", d + "/vdecode", "-lpthread", "-lrt"])
    parallel(jobs)
    parallel([(lambda c=c: sh(c)) for c in links])
    ctx.note("built " + " ".join(["vsim-" + v for v in sims] + ["vfree-" + v for v in frees]))
    return d


def tokens(s):
    return [x.split() for x in s.split(";")]


class Gen:
    """Scenario generator. Rules that keep the scenarios within what the interface promises:
    level changes only happen while no other thread can be inside a log statement, file switches
    only while no other thread can be inside sync() or another switch."""

    def __init__(self, rng, maxlen):
        self.r, self.maxlen = rng, maxlen

    def ln(self):
        r = self.r
        return r.choice([0, 1, 5, 10, 30, 100, 100, 200, 300, self.maxlen, r.randrange(0, self.maxlen + 1)])

    def log(self, sites=range(12)):
        return "L%d.%d" % self.sl(sites)

    def rep(self, lo, hi, sites=range(12)):
        return "R%dx%d.%d" % ((self.r.randint(lo, hi),) + self.sl(sites))

    def sl(self, sites):
        s, n = self.r.choice(list(sites)), self.ln()
        return (s, min(n, self.maxlen // 2) if s == 9 else n)      # s9 logs its string twice

    def join(self, threads):
        return " ; ".join(" ".join(t) for t in threads)

    # -- families ---------------------------------------------------------
    def basic(self, nthr=None, sync=0.3, fill=0.3, nops=(1, 5)):
        r = self.r
        n = nthr or r.randint(1, 3)
        ths = [[]]
        for i in range(1, n + 1):
            ops = []
            for _ in range(r.randint(*nops)):
                x = r.random()
                if x < sync:
                    ops.append("S")
                elif x < sync + fill:
                    ops.append(self.rep(2, 8))
                elif x < sync + fill + 0.05:
                    ops.append("P")
                else:
                    ops.append(self.log())
            ths.append(ops)
        main = ["C%d" % i for i in range(1, n + 1)]
        for _ in range(r.randint(0, 4)):
            main.insert(r.randint(0, len(main)), r.choice([self.log(), "S" if sync else self.log(), self.log()]))
        js = ["J%d" % i for i in range(1, n + 1)]
        r.shuffle(js)
        if r.random() < 0.6:
            for j in js:
                main.append(j)
                if r.random() < 0.3:
                    main.append(self.log())
                if sync and r.random() < 0.3:
                    main.append("S")
        ths[0] = main
        return self.join(ths)

    def churn(self, count=None, q=True):
        """short-lived threads, in waves"""
        r = self.r
        n = count or r.randint(3, 7)
        ths = [[]] + [[self.log() for _ in range(r.choice([0, 1, 1, 2, 3]))] + (["S"] if r.random() < 0.2 else [])
                      for _ in range(n)]
        main, live, i = [], [], 1
        while i <= n or live:
            x = r.random()
            if i <= n and (x < 0.5 or not live):
                main.append("C%d" % i)
                live.append(i)
                i += 1
            elif x < 0.8:
                j = live.pop(r.randrange(len(live)))
                main.append("J%d" % j)
            elif x < 0.9:
                main.append(self.log())
            else:
                main.append("S")
        if q:
            main += ["S"] * 5 + ["Q"]
        ths[0] = main
        return self.join(ths)

    def exit(self):
        """threads log and the process ends without sync"""
        r = self.r
        n = r.randint(0, 4)
        ths = [[]] + [[r.choice([self.log(), self.rep(1, 6)]) for _ in range(r.randint(0, 3))] for _ in range(n)]
        main = []
        for i in range(1, n + 1):
            main.append("C%d" % i)
            if r.random() < 0.4:
                main.append(self.log())
        for i in r.sample(range(1, n + 1), n):
            main.append("J%d" % i)
            if r.random() < 0.4:
                main.append(self.log())
        if r.random() < 0.5:
            main.append(self.rep(1, 5))
        ths[0] = main
        return self.join(ths)

    def switch(self):
        r = self.r
        ths, main, t = [[]], [], 0
        for _ in range(r.randint(1, 4)):
            for _ in range(r.randint(0, 2)):
                main.append(self.log())
            if r.random() < 0.5 and t < 4:
                t += 1
                ths.append([self.log() for _ in range(r.randint(1, 4))])
                main += ["C%d" % t, self.log()]
                if r.random() < 0.6:
                    main.append("J%d" % t)
                else:                           # goes on logging during the switch
                    ths[t] += [self.log(), self.rep(1, 4)]
            if r.random() < 0.3:
                main.append("S")
            main.append("F%d" % r.choice([1, 2, 3, 1, 2, 0, 7, 8]))
        for _ in range(r.randint(0, 3)):
            main.append(self.log())
        ths[0] = main
        return self.join(ths)

    def sites(self):
        """many call sites, first executions racing; dictionary does not fit"""
        r = self.r
        n = r.randint(1, 4)
        ths = [[]]
        for _ in range(n):
            s = list(range(12))
            r.shuffle(s)
            ths.append(["L%d.%d" % (x, r.choice([0, 1, 20])) for x in s[:r.randint(3, 12)]])
        main = ["V4"] if r.random() < 0.7 else []
        main += ["C%d" % i for i in range(1, n + 1)]
        if r.random() < 0.5:
            main.append("S")
        main += ["J%d" % i for i in range(1, n + 1)]
        if r.random() < 0.5:
            main.append("F%d" % r.randint(1, 3))
            s = list(range(12))
            r.shuffle(s)
            main += ["L%d.3" % x for x in s[:r.randint(1, 8)]]
        ths[0] = main
        return self.join(ths)

    def levels(self):
        r = self.r
        ths, main, t = [[]], [], 0
        for _ in range(r.randint(2, 6)):
            main.append("V%d" % r.choice([0, 1, 2, 3, 4, 4, 3, 5, 9, -1, -7]))
            for _ in range(r.randint(0, 4)):
                main.append(self.log())
            if r.random() < 0.4 and t < 4:
                t += 1
                ths.append([self.log() for _ in range(r.randint(1, 5))])
                main += ["C%d" % t] + [self.log() for _ in range(r.randint(0, 2))] + ["J%d" % t]
        ths[0] = main
        return self.join(ths)

    def stats(self):
        """statistics read while nothing else happens"""
        r = self.r
        ths, main, t = [[]], ["V4"] if r.random() < 0.3 else [], 0
        for _ in range(r.randint(1, 4)):
            live = []
            for _ in range(r.randint(0, 2)):
                if t < 6:
                    t += 1
                    ths.append([r.choice([self.log(), self.rep(1, 5), "P", "S"]) for _ in range(r.randint(0, 3))])
                    main.append("C%d" % t)
                    live.append(t)
                main.append(r.choice([self.log(), self.log(), self.rep(1, 6), "S", "P"]))
            main += ["J%d" % i for i in live]
            x = r.random()
            if x < 0.25:
                main += ["F%d" % r.choice([1, 2, 3, 0, 7])]
            elif x < 0.35:
                main += ["V%d" % r.randint(0, 4)]
            if r.random() < 0.8:
                main += ["S"]
                if r.random() < 0.3 and t < 6:         # a thread whose empty buffer may still be there
                    t += 1
                    ths.append(["P"])
                    main += ["C%d" % t, "J%d" % t]
                main += ["N"] + (["N"] if r.random() < 0.2 else [])
        ths[0] = main + ["S", "N"]
        return self.join(ths)

    def many(self, n=20):
        """more than 16 threads, so that identifiers need the long form"""
        ths = [[]] + [["L0.0", "L1.4"] for _ in range(n)]
        ths[0] = ["C%d" % i for i in range(1, n + 1)] + ["L0.0"] + ["J%d" % i for i in range(1, n + 1)] + ["S"]
        return self.join(ths)


FAMS = {
    "C01": [("basic", 5), ("exit", 1), ("churn", 1), ("sites", 1)],
    "C02": [("syncs", 5), ("churn", 3), ("basic", 1)],
    "C03": [("fill", 4), ("syncs", 2), ("churn", 2), ("exit", 1), ("switch", 1)],
    "C04": [("exit", 5), ("basicns", 2), ("churn", 1), ("switch", 1)],
    "C05": [("switch", 8), ("sites", 1)],
    "C06": [("sites", 8), ("switch", 1), ("levels", 1)],
    "C07": [("levels", 1)],
    "C09": [("churn", 6), ("churnns", 3), ("many", 0.3)],
    "C10": [("fill", 3), ("sites", 3), ("basic", 1)],
    "C19": [("basic", 1)],
    "C22": [("stats", 1)],
}
OWN = {
    "C01": {"append", "known", "fifo", "file", "torn", "exitdur", "syncdur", "crash", "died", "dcrash", "count", "uaf", "ordered", "stuckev"},
    "C02": {"syncdur", "append", "fifo", "known", "crash", "died", "dcrash", "hang", "deadlock", "torn", "stuckev"},
    "C03": {"hang", "deadlock", "stuck", "crash", "died", "dcrash"},
    "C04": {"exitdur", "fifo", "append", "known", "count", "crash", "died", "dcrash", "hang", "deadlock", "stuck", "torn", "uaf"},
    "C05": {"file", "switchok", "switchdur", "exec", "append", "fifo", "known", "meta", "exitdur", "crash", "died", "dcrash", "hang", "deadlock", "stuck", "count", "stuckev"},
    "C06": {"meta", "known", "fifo", "crash", "died", "dcrash", "exitdur", "hang"},
    "C07": {"level", "known", "fifo", "exitdur", "meta", "crash", "died", "stuckev"},
    "C09": {"ids", "live", "uaf", "exitdur", "fifo", "syncdur", "append", "known", "crash", "died", "dcrash", "hang", "deadlock", "torn"},
    "C10": {"append", "known", "fifo", "exitdur", "meta", "crash", "died", "dcrash", "hang"},
    "C22": {"stats", "crash", "died", "dcrash", "hang", "deadlock", "stuck", "append", "known", "fifo"},
}


def scenario(rng, fam, maxlen):
    g = Gen(rng, maxlen)
    if fam == "basic":
        return g.basic()
    if fam == "basicns":
        return g.basic(sync=0)
    if fam == "syncs":
        return g.basic(nthr=rng.randint(1, 3), sync=0.5, fill=0.05, nops=(1, 4))
    if fam == "fill":
        return g.basic(nthr=rng.randint(1, 2), sync=0.15, fill=0.8, nops=(1, 3))
    if fam == "churnns":
        return g.churn(q=False)
    return getattr(g, fam)()


def pick(rng, weights):
    tot = sum(w for _, w in weights)
    x = rng.random() * tot
    for n, w in weights:
        x -= w
        if x < 0:
            return n
    return weights[-1][0]


def make_jobs(ctx, rng, count, maxlen, tag):
    jobs = []
    while len(jobs) < count:
        fam = pick(rng, FAMS[ctx.prop])
        sc = scenario(rng, fam, maxlen)
        for _ in range(1 if fam == "many" else rng.choice([2, 4, 8])):
            strat = rng.choice([0, 0, 1, 1, 1])
            pmem = rng.choice([0.01, 0.05, 0.2, 0.5])
            psync = rng.choice([0.1, 0.3, 0.6])
            pio = rng.choice([0.02, 0.1, 1.0])
            ptim = rng.choice([0.02, 0.1, 1.0])
            spur = rng.choice([0, 0, 1])
            fault = 4 if rng.random() < 0.15 else 0
            jobs.append("%s%d %d %d %g %g %g %g %d %d %d %d %d 0 - | %s" % (
                tag, len(jobs), rng.randrange(1 << 30), strat, pmem, psync, pio, ptim, spur, rng.randint(0, 6),
                rng.choice([200, 600, 1500, 4000]), 600000, fault, sc))
    return jobs[:count]


SMALL = {   # scenarios whose schedules are explored systematically (all single, sampled double preemptions)
    "C01": ["C1 L0.0 R3x1.200 J1 ; R4x1.250 L2.5", "C1 L0.0 J1 S ; L1.100"],
    "C02": ["C1 L0.0 S J1 ; L1.5 S", "C1 C2 L0.0 J1 S J2 ; L1.5 ; L0.0 S"],
    "C03": ["C1 L0.0 S J1 ; R6x1.300", "C1 C2 S J1 J2 ; S ; S"],
    "C04": ["C1 C2 L0.0 J1 J2 ; L1.5 ; L0.0", "C1 J1 ; R5x1.300"],
    "C05": ["L0.0 F1 L0.1 F2 L1.0 F1 L2.0", "C1 L0.0 J1 F1 L0.0 ; L1.1", "C1 L0.0 F1 L0.1 ; L1.1 L2.1 L3.1 L4.0"],
    "C06": ["C1 C2 J1 J2 ; L5.0 L0.0 L8.0 ; L8.0 L0.0 L1.0", "C1 L5.1 J1 F1 L8.1 ; L8.1 L5.1"],
    "C07": ["V4 L3.1 L10.0 V1 L0.0 L2.0 V3 L0.1 L3.0", "V0 L2.0 V4 C1 L3.0 J1 V2 L0.0 ; L10.0 L3.1"],
    "C09": ["C1 C2 J1 C3 J2 J3 S S S S S Q ; L0.0 ; L1.1 ; L2.2", "C1 C2 L0.0 J1 J2 ; L0.0 ; L1.1 L0.0"],
    "C10": ["C1 R3x8.200 J1 ; R3x5.300"],
    "C22": ["C1 L0.0 J1 S N ; L1.100", "L1.5 F1 L0.0 S N F1 S N"],
}


def systematic(ctx, d, v, rng, limit, tag):
    """Preemption-bounded exploration of the small scenarios: every single preemption point with every
    target, then sampled pairs."""
    jobs = []
    scs = SMALL.get(ctx.prop, [])
    base = ["%sz%d 1 2 0 0 0 0 0 0 0 600000 0 0 - | %s" % (tag, i, s) for i, s in enumerate(scs)]
    recs = run_sim(ctx, d, "vsim-" + v, base, decode=False)
    for i, s in enumerate(scs):
        m = recs.get("%sz%d" % (tag, i))
        n = min(2500, m["shared"] + 20) if m and "shared" in m else 400
        singles = [(p, t) for p in range(1, n) for t in range(3)]
        per = limit // len(scs)
        if len(singles) > per * 2 // 3:
            singles = rng.sample(singles, per * 2 // 3)
        for p, t in singles:
            jobs.append("%ss%d %d 2 0 0 0 0 0 1 0 600000 0 0 %d:%d | %s" % (tag, len(jobs), rng.randrange(1 << 20), p, t, s))
        for _ in range(per - len(singles)):
            c = sorted(rng.sample(range(1, n), rng.choice([2, 3])))
            jobs.append("%ss%d %d 2 0 0 0 0 0 1 0 600000 0 0 %s | %s" % (
                tag, len(jobs), rng.randrange(1 << 20), ",".join("%d:%d" % (p, rng.randrange(4)) for p in c), s))
    return jobs


def run_sim(ctx, d, exe, jobs, decode=True, workers=NCPU, deep=True, limit=None):
    """Runs jobs, returns {id: record}. record: ev (list), verdict, job."""
    if not jobs:
        return {}
    w = tempfile.mkdtemp(prefix="run-", dir=ctx.dir)
    jf = w + "/jobs"
    with open(jf, "w") as f:
        f.write("\n".join(jobs) + "\n")
    procs = []
    workers = max(1, min(workers, len(jobs)))
    env = dict(os.environ)
    if limit:
        env["VF_LIMIT_S"] = str(limit)
    for i in range(workers):
        wd = "%s/w%d" % (w, i)
        os.makedirs(wd)
        out = open(wd + "/out", "wb")
        err = open(wd + "/err", "wb")
        p1 = subprocess.Popen([d + "/" + exe, jf, str(i), str(workers)], cwd=wd, stdout=subprocess.PIPE, stderr=err, env=env)
        os.makedirs(wd + "/dec")
        p2 = subprocess.Popen([d + "/vdecode", "deep" if deep else "flat"], cwd=wd + "/dec", stdin=p1.stdout, stdout=out, stderr=err)
        p1.stdout.close()
        procs.append((p1, p2, wd))
    recs = {}
    bad = []
    for p1, p2, wd in procs:
        r1, r2 = p1.wait(), p2.wait()
        if r1 or r2:
            bad.append((r1, r2, open(wd + "/err").read()[-500:]))
        for line in open(wd + "/out", errors="replace"):
            try:
                r = json.loads(line)
            except ValueError:
                bad.append(line[:200])
                continue
            recs[r["id"]] = r
    shutil.rmtree(w, ignore_errors=True)
    if bad and len(recs) < len(jobs):
        raise CheckError("simulation failed: %s" % (bad[:2],))
    byid = {j.split()[0]: j for j in jobs}
    for k, r in recs.items():
        r["job"] = byid[k]
    return recs


def to_trace(r):
    evs = [e for e in r["ev"] if e["op"] not in ("begin", "dbg")]
    nthr = 1
    for e in evs:
        if e["op"] == "live":
            e["max"] = 1      # only main is alive at a Q
        if "t" in e:
            nthr = max(nthr, e["t"] + 1)
    return evs, nthr


def check_traces(ctx, recs, exe, d, own, confirm=True):
    """TLC-validates the distinct traces of recs; confirmed rejections become violations."""
    uniq, src, big = [], [], []
    seen = set()
    for r in recs.values():
        evs, nthr = to_trace(r)
        h = digest(evs)
        if h in seen:
            continue
        seen.add(h)
        (uniq if nthr <= 8 else big).append((evs, r))
    out = []
    for group, nt in ((uniq, "7"), (big, "40")):
        if not group:
            continue
        rej = validate(ctx, "TraceNanoLog", "TraceNanoLog.cfg", [g[0] for g in group], env=dict(NT=nt))
        out += [(group[i][1], pos, names) for i, pos, names in rej]
    ctx.add("runs", len(recs))
    ctx.add("distinct_traces", len(seen))
    mine = [x for x in out if x[2] & own]
    other = [x for x in out if not (x[2] & own)]
    if other:
        ctx.note("%d rejections outside this property: %s" % (len(other), sorted(set().union(*[x[2] for x in other]))) +
                 " e.g. " + other[0][0]["job"].strip()[:300])
    # confirm by re-running
    reported = 0
    for r, pos, names in mine:
        if reported >= 3:
            break
        ok = not confirm
        if confirm:
            tries = 1 if exe.startswith("vsim") else 3
            for _ in range(tries):
                # a run that did not end is repeated with ten times the step budget
                again = run_sim(ctx, d, exe, [r["job"].replace(" 600000 ", " 6000000 ", 1)], workers=1, limit=60)
                evs, nthr = to_trace(again[r["id"]])
                rj = validate(ctx, "TraceNanoLog", "TraceNanoLog.cfg", [evs], env=dict(NT=str(max(7, nthr))))
                if rj and rj[0][2] & own:
                    ok = True
                    break
        if ok:
            evs, _ = to_trace(r)
            reported += 1
            ctx.violation("%s broken at event %d of %s: %s" % (sorted(names & own), pos, r["job"].strip(),
                                                            json.dumps(evs[pos - 1])[:300] if pos <= len(evs) else ""),
                          dict(exe=exe, job=r["job"], pos=pos, broken=sorted(names), trace=evs))
        else:
            ctx.note("rejection not repeated, ignored: %s %s" % (names, r["job"][:120]))
    return out


def sample(ctx, recs):
    for r in list(recs.values())[:2]:
        evs, _ = to_trace(r)
        ctx.samples.append(dict(job=r["job"].strip(), events=[{k: v for k, v in e.items()} for e in evs[:12]]))


# design-model instances per property: quick; thorough runs all of MODELS_ALL
MODELS = {"C01": ["ImplFullS"], "C02": ["ImplSyncS"], "C03": ["ImplLiveSwitchS", "ImplLiveExitS"], "C04": ["ImplExitS"],
          "C05": ["ImplSwitchS"], "C06": ["ImplSwitchS", "ImplExitS"], "C07": ["ImplSwitchS"], "C09": ["ImplExitS"], "C22": ["ImplSyncS"]}
MODELS_ALL = {"C01": ["ImplFull", "ImplSwitch"], "C02": ["ImplSyncS", "ImplSwitch"],
              "C03": ["ImplLiveSwitchS", "ImplLiveExitS", "ImplLiveSyncS", "ImplLiveFullS"],
              "C04": ["ImplExitS", "ImplFull"], "C05": ["ImplSwitch"], "C06": ["ImplSwitch", "ImplFull"],
              "C07": ["ImplSwitch"], "C09": ["ImplExitS", "ImplFull"], "C22": ["ImplSyncS", "ImplSwitch"]}


DIRECT = ("C01", "C04", "C22")     # also in a configuration that pads the output to blocks (O_DIRECT)


def models(ctx):
    """TLC on the implementation-shaped model: refinement of NanoLogSpec, invariants, liveness."""
    for m in (MODELS if ctx.quick else MODELS_ALL)[ctx.prop]:
        model_check(ctx, "MCImpl", m + ".cfg", workers=NCPU, timeout=900)
    r = tlc(ctx, "MCImpl", "ImplEintr.cfg", workers=4, timeout=200) if not ctx.quick else None
    if r and "is violated" not in r.out:
        raise CheckError("the model does not notice an early return of aio_suspend()")


def run(ctx):
    own = OWN[ctx.prop]
    rng = random.Random(ctx.seed * 1000003 + sum(map(ord, ctx.prop)))
    sims = ("a", "b", "d") if ctx.prop in DIRECT else ("a", "b")
    d = build(ctx, sims)
    models(ctx)
    n = 2500 if ctx.quick else 40000
    rounds = 1 if ctx.quick else 8
    for rd in range(rounds):
        for v in sims:
            maxlen = 440 if v == "a" else 900
            jobs = make_jobs(ctx, rng, n // rounds // (3 if v == "d" else 1), maxlen, "%s%d" % (v, rd))
            if v == "a":
                jobs += systematic(ctx, d, v, rng, (1600 if ctx.quick else 24000) // rounds, "%s%d" % (v, rd))
            recs = run_sim(ctx, d, "vsim-" + v, jobs)
            check_traces(ctx, recs, "vsim-" + v, d, own)
            sample(ctx, recs)
            ctx.note("vsim-%s round %d: %d runs, %d distinct so far" % (v, rd, len(recs), ctx.cov["distinct_traces"]))
            if ctx.violations:
                return
    free(ctx, d, rng, own)


def free(ctx, d, rng, own):
    """free-running stress: -O3, real threads and AIO"""
    n = 160 if ctx.quick else 4000
    for v, maxlen in (("a", 440), ("real", 15000)):
        jobs = []
        k = n if v == "a" else n // 8
        while len(jobs) < k:
            fam = pick(rng, FAMS[ctx.prop])
            sc = scenario(rng, fam, maxlen).replace("Q", "Y")
            if fam in ("fill", "basic", "basicns", "exit") and rng.random() < 0.7:
                sc = sc.replace("R", "R1") if v == "a" else sc.replace("R", "R2")
            jobs.append("f%d | %s" % (len(jobs), sc))
        recs = run_sim(ctx, d, "vfree-" + v, jobs, deep=False)
        stuck = [r for r in recs.values() if r["verdict"] == "stuck"]
        for r in stuck:
            again = run_sim(ctx, d, "vfree-" + v, [r["job"]], workers=1, limit=90)[r["id"]]
            recs[r["id"]] = again
        check_traces(ctx, recs, "vfree-" + v, d, own)
        ctx.note("vfree-%s: %d runs" % (v, len(recs)))
        if ctx.violations:
            return
