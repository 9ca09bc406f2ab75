"""Common machinery of the checks: scratch space, builds, TLC, evidence, verdicts."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
RT = os.path.join(REPO, "runtime")
H = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 4))
KNOWN = os.path.join(VERIF, "known-findings.txt")


class BuildError(Exception):
    pass


class CheckError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vc-%s-" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.violations = []      # (description, replay dict)
        self.known_hits = []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.known = load_known(prop)

    def sub(self, name):
        p = os.path.join(self.dir, name)
        os.makedirs(p, exist_ok=True)
        return p

    def elapsed(self):
        return time.time() - self.t0

    def note(self, msg):
        print("[%6.1fs] %s" % (self.elapsed(), msg), flush=True)

    def violation(self, what, replay, key=None):
        """key: identifies the failing input; a key listed in known-findings.txt is reported as known."""
        for k in self.known:
            if key and k["key"] == key:
                if key not in self.known_hits:
                    self.known_hits.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
                return False
        self.violations.append((what, replay))
        if len(self.violations) <= 30:
            self.note("violation: " + what[:400])
        return True

    def add(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def finish(self, level="model_checking"):
        rc = 0
        rdir = os.path.join(VERIF, "evidence", "replays")
        if self.violations:
            rc = 1
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump([{"what": w, "replay": r} for w, r in self.violations[:20]], f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:6] or ["none"])
        ev = dict(property=self.prop, tier="quick" if self.quick else "thorough", seed=self.seed, level=level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(self.elapsed(), 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.note("%s: %s" % (self.prop, "VIOLATED" if rc else "held on everything explored"))
        return rc

    def cleanup(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append(dict(key=m.group(2), what=m.group(3)))
    return out


# ---------------------------------------------------------------------------
def sh(cmd, cwd=None, timeout=600, env=None, stdin=None, check=True, binary=False, stdin_text=None):
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONWARNINGS"] = "ignore"
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=e, shell=isinstance(cmd, str),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=stdin if stdin_text is None else None,
                       input=stdin_text)
    if check and p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, cmd if isinstance(cmd, str) else " ".join(cmd),
                                                          p.stderr.decode("latin1")[-3000:]))
    return p


def parallel(fns, n=NCPU):
    with cf.ThreadPoolExecutor(n) as ex:
        futs = [ex.submit(f) for f in fns]
        return [f.result() for f in futs]


BASEFLAGS = ["-std=c++17", "-g", "-include", "array", "-w", "-I" + RT, "-I" + H]


def bufs(staging, output):
    return ["-DNANOLOG_VERIF_BUFFERS", "-DNANOLOG_VERIF_STAGING_SIZE=%d" % staging,
            "-DNANOLOG_VERIF_OUTPUT_SIZE=%d" % output]


def cc(src, obj, flags, cxx="g++"):
    return lambda: sh([cxx] + BASEFLAGS + flags + ["-c", src, "-o", obj])


def generated(ctx, flags=(), name="gen"):
    """GeneratedCode.cc for programs without preprocessed log statements (the runtime refers to its symbols)."""
    d = ctx.sub(name)
    src = os.path.join(d, "empty.cc")
    with open(src, "w") as f:
        f.write('#include "NanoLog.h"\n')
    sh(["g++", "-std=c++17", "-include", "array", "-E", "-I" + RT, src, "-o", d + "/empty.cc.i"])
    parser = os.path.join(REPO, "preprocessor", "parser.py")
    sh(["python3", parser, "--mapOutput=" + d + "/empty.map", d + "/empty.cc.i"], cwd=d)
    sh(["python3", parser, "--combinedOutput=" + d + "/GeneratedCode.cc", d + "/empty.map"], cwd=d)
    obj = d + "/gen.o"
    sh(["g++"] + BASEFLAGS + ["-O1"] + list(flags) + ["-c", d + "/GeneratedCode.cc", "-o", obj])
    return obj


# ---------------------------------------------------------------------------
class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = "Model checking completed. No error has been found." in out
        self.printed = re.findall(r"^<<.*>>$", out, re.M)


def tlc(ctx, module, cfg, env=None, workers=1, timeout=800, extra=(), heap="3g", specdir=SPEC, simulate=None):
    md = tempfile.mkdtemp(prefix="tlc-", dir=ctx.dir)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % min(4, max(1, workers)), "-Xmx" + heap, "-Xss256m",
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE"]
    cmd += list(extra)
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += ["-config", os.path.join(specdir, cfg) if not os.path.isabs(cfg) else cfg,
            os.path.join(specdir, module + ".tla")]
    try:
        p = sh(cmd, cwd=specdir, timeout=timeout, env=env, check=False)
        out = p.stdout.decode("utf8", "replace") + p.stderr.decode("utf8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode("utf8", "replace") + "\nTLC TIMEOUT"
        rc = -9
    shutil.rmtree(md, ignore_errors=True)
    return TlcResult(out, rc)


def model_check(ctx, module, cfg, workers=NCPU, timeout=600, expect_ok=True, heap="6g", extra=(), env=None):
    """Model-checks a design model (independent of the code). A failure is an error of the check."""
    r = tlc(ctx, module, cfg, workers=workers, timeout=timeout, heap=heap, extra=extra, env=env)
    if expect_ok and not r.ok:
        r2 = tlc(ctx, module, cfg, workers=workers, timeout=timeout, heap=heap, extra=extra, env=env)
        if not r2.ok:
            raise CheckError("TLC failed on %s/%s:\n%s" % (module, cfg, r2.out[-4000:]))
        r = r2
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.note("TLC %s/%s: %d distinct states, %d transitions" % (module, os.path.basename(cfg), r.distinct, r.generated))
    return r


def validate(ctx, module, cfg, traces, env=None, shards=None, timeout=800):
    """Validates traces (list of lists of events) with a batch trace spec that prints
    <<"REJECT", n, pos, {names}>> and <<"ACCEPTED", a, "OF", n>>.
    Returns list of (index, pos, set-of-names)."""
    if not traces:
        return []
    shards = shards or max(1, min(NCPU, len(traces) // 150 + 1))
    # balance by size
    weight = [len(t) if isinstance(t, list) else len(json.dumps(t)) for t in traces]
    order = sorted(range(len(traces)), key=lambda i: -weight[i])
    groups = [order[i::shards] for i in range(shards)]
    groups = [g for g in groups if g]

    def one(gi, g):
        def run():
            p = os.path.join(ctx.dir, "traces-%d-%d.json" % (os.getpid(), gi) )
            p = tempfile.mktemp(prefix="tr-", suffix=".json", dir=ctx.dir)
            with open(p, "w") as f:
                json.dump([traces[i] for i in g], f)
            e = dict(TRACES=p)
            if env:
                e.update(env)
            for attempt in (0, 1):
                r = tlc(ctx, module, cfg, env=e, workers=1, timeout=timeout)
                m = re.search(r'<<"ACCEPTED", (\d+), "OF", (\d+)>>', r.out)
                rej = re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', r.out, re.S)
                if m and r.ok and int(m.group(1)) + len(set(x[0] for x in rej)) == len(g):
                    break
            else:
                raise CheckError("TLC trace validation failed (%s):\n%s\n...\n%s" % (module, "\n".join(re.findall(r"^(?:Error|.*[Ee]xception).*(?:\n.*){0,6}", r.out, re.M)[:4])[:4000], r.out[-1500:]))
            os.unlink(p)
            return r, [(g[int(a) - 1], int(b), set(re.findall(r'"([^"]*)"', c))) for a, b, c in rej]
        return run
    res = parallel([one(i, g) for i, g in enumerate(groups)])
    rejects = []
    for r, rj in res:
        ctx.states += r.distinct
        ctx.transitions += r.generated
        rejects += rj
    ctx.traces += len(traces)
    return sorted(rejects, key=lambda x: x[0])


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]
