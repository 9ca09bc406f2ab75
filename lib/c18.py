"""C18 (and the attribution part of C17): generated source files through the real front ends, judged by Source."""
from prog import *

FILES = {"`": '"', "^": "\\", "$": "\n", "@": "\u03bb\u00b2"}
LINE = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{9} (.+?):(\d+) ([A-Z]+)\[\d+\]: ")


def decode(s):
    return "".join(FILES.get(c, c) for c in s)


def encode(b):
    s = b.decode("utf-8", "backslashreplace").replace("\u03bb\u00b2", "@")
    return "".join({v: k for k, v in FILES.items()}.get(c, c if c == "@" or " " <= c <= "~" and c not in FILES else "\\x%x" % ord(c)) for c in s)


def generate(ctx, n, cfg="SourceGen.cfg", salt=0):
    r = tlc(ctx, "SourceGen", cfg, workers=1, simulate="num=%d" % n, extra=["-depth", "3", "-seed", str(ctx.seed * 109 + salt)], timeout=800)
    if "is violated" in r.out:
        raise CheckError("Source: the statements of a text are not the intended ones\n" + r.out[-3000:])
    got = [json.loads(re.sub(r"\\(.)", r"\1", x)) for x in re.findall(r'^"(\{.*\})"$', r.out, re.M)]
    if len(got) < n:
        raise CheckError("SourceGen generated too little:\n%s" % r.out[-2000:])
    ctx.states += r.generated
    ctx.transitions += r.generated
    return got


def write(d, program):
    names = []
    for name, text in program["files"]:
        name = decode(name)
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        with open(os.path.join(d, name), "w", encoding="utf-8") as f:
            f.write(decode(text))
        names.append(name)
    shutil.copy(H + "/front.h", d)
    shutil.copy(H + "/runner.cc", d)
    return [names[0], names[2]]


def build(rt, ctx, name, program, front):
    """returns the scratch directory and the reader, or None and what failed"""
    d = ctx.sub(name)
    units = write(d, program)
    env = dict(LC_ALL="C.UTF-8")
    defs = ["-DFRONT_CPP17"] if front == "cpp17" else []
    objs = []
    try:
        if front == "cpp17":
            for u in units + ["runner.cc"]:
                sh([rt.cxx, "-I."] + BASEFLAGS + rt.fl + defs + ["-c", u, "-o", u + ".o"], cwd=d, env=env)
                objs.append("%s/%s.o" % (d, u))
            rt.link(objs + [rt.none] + rt.core["c"], d + "/prog")
            return d, rt.d + "/prd"
        parser, maps = os.path.join(REPO, "preprocessor", "parser.py"), []
        for u in units:
            sh([rt.cxx, "-std=c++17", "-E", "-I" + RT, "-I.", u, "-o", u + ".i"], cwd=d, env=env)
            sh(["python3", "-B", "-W", "ignore", parser, "--mapOutput=%s.map" % u, u + ".i"], cwd=d, env=env)
            sh([rt.cxx, "-std=c++17", "-w", rt.opt] + (["-fpreprocessed", "-x", "c++"] if rt.cxx == "g++" else ["-x", "c++-cpp-output"]) + ["-c", u + ".ii" if os.path.exists("%s/%s.ii" % (d, u)) else u + ".i.ii", "-o", u + ".o"], cwd=d, env=env)
            maps.append(u + ".map")
            objs.append("%s/%s.o" % (d, u))
        sh(["python3", "-B", "-W", "ignore", parser, "--combinedOutput=gen.cc"] + maps, cwd=d, env=env)
        sh([rt.cxx] + BASEFLAGS + rt.pre + ["-c", "runner.cc", "-o", "runner.o"], cwd=d)
        sh([rt.cxx] + BASEFLAGS + rt.pre + ["-c", "gen.cc", "-o", "gen.o"], cwd=d)
        rt.link(objs + [d + "/runner.o", d + "/gen.o"] + rt.core["p"], d + "/prog")
        rt.link([rt.d + "/pprd.o", d + "/gen.o"] + rt.core["p"], d + "/prd")
        return d, d + "/prd"
    except BuildError as e:
        return None, str(e)


def message(raw):
    h = LINE.match(raw)
    if not h or not raw.endswith(b"\r\n"):
        return dict(file="?", line=0, l="?", t=encode(raw))
    return dict(file=encode(h[1]), line=int(h[2]), l=h[3].decode(), t=encode(raw[h.end():-2]))


def job(ctx, rt, k, program, front):
    def go():
        d, rd = build(rt, ctx, "%s%d" % (front, k), program, front)
        if d is None:
            return [dict(op="build", ok=False, what=rd[:20000])]
        g = program["g"]
        ev = [dict(op="build", ok=True)]
        p = limited([d + "/prog", "out.log"], d, UTF8)
        ev.append(dict(op="run", g=g, status=p.returncode, said=[encode(x) for x in p.stdout.split(b"\x1e")[:-1]]))
        with open(d + "/kinds", "w"):
            pass
        rrc, msgs, tail = read(rd, d, UTF8)
        ev.append(dict(op="log", g=g, front=front, how="iterative", status=rrc, got=[message(bytes.fromhex(m[4])) for m in msgs]))
        p = limited([rd, "out.log", "agg", "-1"], d, UTF8)
        end = p.stdout.rfind(b"\r\nCALLED")
        parts = [m.start() for m in LINE.finditer(p.stdout[:end])] + [p.stdout.find(b"\r\n\r\n# Decompression Complete", 0, end) if b"# Decompression Complete" in p.stdout else end]
        ev.append(dict(op="log", g=g, front=front, how="unordered", status=p.returncode, got=[message(p.stdout[a:b]) for a, b in zip(parts, parts[1:])]))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
        return ev
    return go


def describe(ev, program):
    if ev["op"] == "build":
        at = max(0, ev["what"].find("error"))
        return "cannot be built: %s" % " ".join(ev["what"][at:at + 600].split())
    if ev["op"] == "run":
        return "status %d, printed %s" % (ev["status"], ev["said"])
    return "%s decompression, status %d, %d messages" % (ev["how"], ev["status"], len(ev["got"]))


def layouts(ctx, rt, programs, front, label):
    traces = parallel([job(ctx, rt, k, p, front) for k, p in enumerate(programs)])
    ctx.note("%s: %d programs built and run" % (label, len(traces)))
    for i, pos, names in validate(ctx, "TraceSource", "TraceSource.cfg", traces, shards=NCPU):
        ev = traces[i][pos - 1]
        ctx.violation("%s: wrong %s: %s" % (label, ", ".join(sorted(names, key=lambda n: n[0] == "(")), describe(ev, programs[i])), dict(event=ev, files=[[decode(n), decode(t)] for n, t in programs[i]["files"]]),
                      key="source:%s" % digest(programs[i]["g"]))
    ctx.add("programs", len(traces))
    ctx.add("messages", sum(len(t[2]["got"]) for t in traces if len(t) > 2))


def run(ctx):
    import c17
    q = ctx.quick
    ctx.assumptions += ["sources are UTF-8 and compiled with the compiler's -E output as the preprocessor's input"]
    n = 160 if q else 1000
    rt, programs, a, lg = parallel([lambda: Runtime(ctx), lambda: generate(ctx, 48 if q else 400), lambda: gen(ctx, "PrintGenC.cfg", n, 11), lambda: gen(ctx, "PrintGenL.cfg", 8 if q else 60, 13)])
    layouts(ctx, rt, programs, "pre", "preprocessor")
    c17.judge(ctx, c17.pre_jobs(ctx, rt, a, 20, EMPTY, "a") + c17.pre_jobs(ctx, rt, lg, 4, EMPTY, "l"), ("oracle", "text", "lost", "crash", "log"), "preprocessor")
    ctx.samples += [decode(p["files"][0][1])[:700] for p in programs[:2]]
