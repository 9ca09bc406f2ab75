"""C17, C18, C20: programs generated from PrintGen log through the real front ends; the decompressed messages are judged by Printf."""
import random
from vc import *
from logf import CORE
from c16 import literal
from c19 import injected, limbs

CPP = dict(int="int", unsigned="unsigned", short="short", ushort="unsigned short", schar="signed char", uchar="unsigned char", char="char", bool="bool", long="long", ulong="unsigned long",
           llong="long long", ullong="unsigned long long", intmax="intmax_t", uintmax="uintmax_t", size="size_t", ssize="ssize_t", ptrdiff="ptrdiff_t", wint="wint_t", wchar="wchar_t",
           double="double", float="float", ldouble="long double", cvoidp="const void*", voidp="void*", intp="int*", cstrp="const char*", pp="char**", dynw="int", dynp="int")
# kinds of values a reader asks for, by (length, signed)
INTK = {("", 1): "e", ("hh", 1): "a", ("h", 1): "c", ("", 0): "f", ("hh", 0): "b", ("h", 0): "d"}


def gen(ctx, cfg, n, salt):
    r = tlc(ctx, "PrintGen", cfg, workers=1, simulate="num=%d" % n, extra=["-depth", "240", "-seed", str(ctx.seed * 107 + salt)], timeout=800)
    got = re.findall(r'^"(\{.*\})"$', r.out, re.M)
    if len(got) < n:
        raise CheckError("PrintGen/%s generated too little:\n%s" % (cfg, r.out[-2000:]))
    ctx.states += r.generated
    ctx.transitions += r.generated
    out = [json.loads(g.replace('\\"', '"').replace("\\\\", "\\")) for g in sorted(set(got))]
    random.Random(ctx.seed).shuffle(out)
    return out[:n]


def conv(i):
    return "%" + bytes(i["fl"]).decode() + ("" if i["w"] == -1 else "*" if i["w"] == -2 else str(i["w"])) + \
        ("" if i["p"] == -1 else ".*" if i["p"] == -2 else "." if i["p"] == -3 else ".%d" % i["p"]) + i["len"] + i["c"]


def fmt(st):
    return "".join(literal(i["b"]) if i["k"] == "t" else conv(i) for i in st["items"])


def kind(i):
    c, ln = i["c"], i["len"]
    if c in "di":
        return INTK.get((ln, 1), "h" if ln == "z" else "g")
    if c in "uoxX":
        return INTK.get((ln, 0), "g" if ln == "t" else "h")
    if c == "c":
        return "f" if ln else "e"
    if c == "s":
        return "w" if ln else "s"
    return "p" if c == "p" else "-" if ln == "L" else "x"


def kinds(st):
    return "".join(kind(i) for i in st["items"] if i["k"] == "c")


def value(t, v):
    if "x" in v:
        x = v["x"]
        return {"ldouble": "(long double)" + (x if "e" not in x or x.endswith("L") else x), "float": "(float)" + x}.get(t, x)
    if "s" in v:
        return '"%s"' % literal(v["s"])
    if "u" in v:
        return "{%s}" % "".join("%d," % c for c in v["u"] + [0])
    x = sum(l << (16 * (3 - k)) for k, l in enumerate(v["i"]))
    return "(%s)0x%xull" % (CPP[t], x)


def statement(n, st, level="NOTICE"):
    o = ["static void s%d(int r) {" % n]
    names, after = [], []
    for k, a in enumerate(st["args"]):
        t, vs = a["t"], a["v"]
        if t in ("cstr", "str", "array"):
            o.append(" static const char *const v%d[] = {%s}; char b%d[512]; strcpy(b%d, v%d[r]);" % (k, ", ".join(value(t, v) for v in vs), k, k, k))
            if t != "array":
                o.append(" %schar *a%d = b%d;" % ("const " if t == "cstr" else "", k, k))
            names.append("b%d" % k if t == "array" else "a%d" % k)
            after.append("memset(b%d, '#', sizeof b%d - 1);" % (k, k))
        elif t in ("cwstr", "wstr"):
            o.append(" static const wchar_t v%d[][64] = {%s}; wchar_t b%d[64]; wcscpy(b%d, v%d[r]);" % (k, ", ".join(value(t, v) for v in vs), k, k, k))
            o.append(" %swchar_t *a%d = b%d;" % ("const " if t == "cwstr" else "", k, k))
            names.append("a%d" % k)
            after.append("wmemset(b%d, L'#', 63);" % k)
        else:
            o.append(" static const %s v%d[] = {%s};" % (CPP[t] if "*" not in CPP[t] else CPP[t] + " const", k, ", ".join(value(t, v) for v in vs)) if False else
                     " typedef %s T%d; static const T%d v%d[] = {%s}; T%d a%d = v%d[r];" % (CPP[t], k, k, k, ", ".join(value(t, v) for v in vs), k, k, k))
            names.append("a%d" % k)
            after.append("a%d = T%d();" % (k, k))
    args = "".join(", " + x for x in names)
    o.append(' begin(%d, r); say(snprintf(out, sizeof out, "%s"%s));' % (n, fmt(st), args))
    k = 0
    for i in st["items"]:
        if i["k"] == "c":
            m = 1 + (i["w"] == -2) + (i["p"] == -2)
            if i["c"] in "fFeEgGaA":
                o.append(' say(snprintf(out, sizeof out, "%s", %s)); bits(%s);' % (conv(i), ", ".join(names[k:k + m]), names[k + m - 1]))
            k += m
    o.append(" before();")
    o.append(' NANO_LOG(%s, "%s"%s);' % (level, fmt(st), args))
    o.append(" after(); " + " ".join(after) + "\n}")
    return "\n".join(o)


HEAD = r'''
#include <clocale>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cwchar>
#include <sys/types.h>
#include "NanoLogCpp17.h"
#include "Cycles.h"
#include "NanoLog.h"
static char out[8192];
static unsigned long long t0;
static void begin(int n, int r) { printf("\n%d %d", n, r); }
static void say(int n) { if (n < 0) { printf(" !"); return; } printf(" t"); for (int i = 0; i < n; ++i) printf("%02x", (unsigned char)out[i]); }
static void bits(double d) { unsigned long long x; memcpy(&x, &d, 8); printf(" %016llx", x); }
static void bits(long double) { printf(" -"); }
static void before() { t0 = PerfUtils::Cycles::rdtsc(); }
static void after() { printf(" %016llx %016llx", t0, (unsigned long long)PerfUtils::Cycles::rdtsc()); }
'''
MAIN = r'''
int main(int argc, char **argv) {
    setlocale(LC_ALL, ""); setlocale(LC_NUMERIC, "C");
    NanoLog::setLogFile(argv[1]); NanoLog::setLogLevel(NanoLog::DEBUG);
    for (int r = 0; r < %d; ++r) { %s }
    NanoLog::sync(); printf("\n"); return 0;
}
'''


def program(sts, first, levels=None):
    rounds = len(sts[0]["args"][0]["v"]) if sts[0]["args"] else 1
    body = "\n".join(statement(first + k, st) for k, st in enumerate(sts))
    return HEAD + body + MAIN % (rounds, " ".join("s%d(r);" % (first + k) for k in range(len(sts)))), rounds


class Runtime:
    """core objects and the reader, for both front ends"""
    def __init__(self, ctx, opt="-O1", cxx="g++"):
        self.ctx, self.d = ctx, ctx.sub("rt" + cxx + opt)
        self.opt, self.cxx = opt, cxx
        d = self.d
        self.fl = [opt]
        self.pre = self.fl + ["-DPREPROCESSOR_NANOLOG"]
        jobs, self.core = [], {"p": [], "c": []}
        for k, f in (("p", self.pre), ("c", self.fl)):
            for s in CORE:
                self.core[k].append("%s/%s%s.o" % (d, k, s))
                jobs.append(cc("%s/%s.cc" % (RT, s), self.core[k][-1], f, cxx))
        jobs += [cc(H + "/prd.cc", d + "/prd.o", self.fl, cxx), cc(H + "/prd.cc", d + "/pprd.o", self.pre, cxx)]
        res = parallel([lambda: generated(ctx, [], "none" + cxx + opt)] + jobs)
        self.none = res[0]
        self.link([d + "/prd.o", self.none] + self.core["c"], d + "/prd")

    def link(self, objs, out):
        sh([self.cxx] + objs + ["-o", out, "-lpthread", "-lrt", "-ldl"])

    def cpp17(self, name, text):
        d = self.ctx.sub(name)
        with open(d + "/prog.cc", "w") as f:
            f.write(text)
        sh([self.cxx] + BASEFLAGS + self.fl + ["-c", d + "/prog.cc", "-o", d + "/prog.o"])
        self.link([d + "/prog.o", self.none] + self.core["c"], d + "/prog")
        return d

    def preprocessed(self, name, files, main=("prog.cc",), extra=()):
        """files: {name: text}; main: the compilation units"""
        d = self.ctx.sub(name)
        for n, text in files.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode())
        parser = os.path.join(REPO, "preprocessor", "parser.py")
        maps, objs = [], []
        for m in main:
            sh([self.cxx, "-std=c++17", "-E", "-I" + RT] + list(extra) + [m, "-o", m + ".i"], cwd=d)
            sh(["python3", parser, "--mapOutput=%s.map" % m, m + ".i"], cwd=d)
            sh([self.cxx, "-std=c++17", "-w", self.opt, "-fpreprocessed", "-x", "c++", "-c", injected(d, m), "-o", m + ".o"] if self.cxx == "g++" else
               [self.cxx, "-std=c++17", "-w", self.opt, "-x", "c++-cpp-output", "-c", injected(d, m), "-o", m + ".o"], cwd=d)
            maps.append(m + ".map")
            objs.append("%s/%s.o" % (d, m))
        sh(["python3", parser, "--combinedOutput=gen.cc"] + maps, cwd=d)
        sh([self.cxx] + BASEFLAGS + self.pre + ["-c", d + "/gen.cc", "-o", d + "/gen.o"])
        self.link(objs + [d + "/gen.o"] + self.core["p"], d + "/prog")
        self.link([d + "/pprd.o" if False else self.d + "/pprd.o", d + "/gen.o"] + self.core["p"], d + "/prd")
        return d


HEADER = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{9} (\S+):(\d+) ([A-Z]+)\[(\d+)\]: ")


def limited(cmd, d, env):
    """a program that hangs or writes without end counts as one that crashed"""
    out = os.path.join(d, "stdout%d" % random.getrandbits(40))
    try:
        with open(out, "wb") as f:
            rc = subprocess.run(["bash", "-c", 'ulimit -f 400000 -c 0; exec "$@"', "-"] + cmd, cwd=d, env=dict(os.environ, **env), stdout=f, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=90).returncode
    except subprocess.TimeoutExpired:
        rc = -1
    with open(out, "rb") as f:
        data = f.read()
    os.unlink(out)
    return subprocess.CompletedProcess(cmd, rc, data[:data.rfind(b"\n") + 1] if rc else data)


def execute(ctx, d, env):
    p = limited([d + "/prog", "out.log"], d, env)
    rows = []
    for line in p.stdout.decode("latin1").split("\n"):
        f = line.split()
        if len(f) > 2:
            rows.append(f)
    return p.returncode, rows


def read(reader, d, env, text=True, log="out.log", kindfile="kinds"):
    p = limited([reader, log, kindfile] + (["text"] if text else []), d, env)
    msgs, tail = [], []
    for line in p.stdout.decode("latin1").split("\n"):
        f = line.split()
        if f and f[0] == "M":
            msgs.append(f)
        elif f:
            tail.append(f)
    return p.returncode, msgs, tail


def unhex(h):
    return list(bytes.fromhex(h))


def big(h):
    return limbs(int(h, 16))


def events(sts, first, rows, rc, msgs, rrc, tail, text=True):
    """one trace per executed statement, and one about the whole log"""
    traces = []
    for n, f in enumerate(rows):
        st, r = sts[int(f[0]) - first], int(f[1])
        it = iter(f[2:])
        want = next(it)
        args, k = [], 0
        whole = [a["v"][r] for a in st["args"]]
        for i in st["items"]:
            if i["k"] != "c":
                continue
            m = 1 + (i["w"] == -2) + (i["p"] == -2)
            mine = [dict(a) for a in whole[k:k + m]]
            if i["c"] in "fFeEgGaA":
                g = next(it, "!")
                b = next(it, "-")
                mine[-1] = dict(g=unhex(g[1:]) if g != "!" else [], bits=big(b) if b != "-" else [])
            args += mine
            k += m
        t0, t1 = next(it, None), next(it, None)
        if t1 is None or want == "!":
            traces.append([dict(op="crash", n=n, fmt=fmt(st))])
            continue
        base = dict(items=st["items"], args=args, want=unhex(want[1:]), before=big(t0), after=big(t1))
        ev = [dict(base, op="oracle")]
        if n < len(msgs):
            m = msgs[n]
            got, hdr = [], True
            if text:
                raw = bytes.fromhex(m[4])
                h = HEADER.match(raw)
                hdr = bool(h) and raw.endswith(b"\r\n")
                got = list(raw[h.end():-2]) if hdr else list(raw)
            vals = []
            for x in m[6:]:
                vals.append(dict(s=unhex(x[1:])) if x[0] == "s" else dict(u=[int(x[1 + j:9 + j], 16) for j in range(0, len(x) - 1, 8)]) if x[0] == "w" else dict(i=big(x)) if x != "-" else dict(n=0))
            ev.append(dict(base, op="text" if text else "silent", header=hdr, got=got))
            ev.append(dict(base, op="values", valid=m[1] == "1", nargs=int(m[5]), vals=vals, at=big(m[3])))
        else:
            ev.append(dict(base, op="lost"))
        traces.append(ev)
    ids = {}
    for n, f in enumerate(rows):
        if n < len(msgs):
            ids.setdefault(f[0], set()).add(int(msgs[n][2]))
    traces.append([dict(op="log", status=rc, reader=rrc, logged=len(rows), got=len(msgs), ids=[sorted(x) for x in ids.values()],
                        ends=[[int(y) for y in x[1:]] for x in tail if x[0] in ("END", "AGAIN")])])
    return traces


EMPTY = dict(LC_ALL="C", TZ="UTC0")
UTF8 = dict(LC_ALL="C.UTF-8", TZ="UTC0")
