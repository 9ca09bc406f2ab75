"""C15: Packer.tla, and the real pack/unpack functions replaying TLC's boundary values and random streams."""
import random
import struct
from vc import *

WIDTH = dict(b=1, c=1, a=1, h=1, s=2, t=2, i=4, j=4, l=8, m=8, x=8, y=8, w=4, f=4, d=8, e=10, p=8, q=8)
BOOL = ("00", "01")


def floats(rng):
    out = []
    for v in (0.0, -0.0, 1.0, -1.0, 0.1, 1e308, -1e308, 5e-324, float("inf"), float("-inf"), float("nan"), 1e38, 3.5):
        try:
            out.append("f:" + struct.pack("<f", v).hex())
        except OverflowError:
            pass
        out.append("d:" + struct.pack("<d", v).hex())
    for mant in (1 << 63, (1 << 64) - 1, (1 << 63) | 1, (1 << 63) | 0x123456789abcdef):
        for exp in (0x3fff, 0xbfff, 0x7ffe, 1, 0x0fff):
            out.append("e:" + struct.pack("<QH", mant, exp).hex())
    out.append("e:" + "00" * 10)
    return out


def run(ctx):
    model_check(ctx, "MCPacker", "PackerA.cfg", workers=4)
    model_check(ctx, "MCPacker", "PackerB.cfg", workers=8)
    r = tlc(ctx, "PackerGen", "PackerGen.cfg", workers=1)
    if not r.ok:
        raise CheckError("PackerGen failed:\n" + r.out[-2000:])
    ctx.states += r.distinct
    ctx.transitions += r.generated
    byw = {1: set(), 2: set(), 4: set(), 8: set()}
    for p in r.printed:
        m = re.match(r'<<"V", <<([\d, ]+)>>>>', p)
        if m:
            b = bytes(int(x) for x in m.group(1).split(","))
            byw[len(b)].add(b.hex())
    d = ctx.sub("build")
    variants = [("o1", ["-O1"], "g++"), ("o3", ["-O3", "-DNDEBUG"], "g++")]
    if not ctx.quick:
        variants += [("clang", ["-O2"], "clang++")]
    parallel([(lambda n=n, f=f, c=c: sh([c] + BASEFLAGS + f + [H + "/pdrv.cc", "-o", d + "/" + n])) for n, f, c in variants])
    rng = random.Random(ctx.seed)
    vals = {}
    for t, w in WIDTH.items():
        if t == "b":
            vals[t] = ["b:00", "b:01"]
        elif t in "fde":
            vals[t] = [x for x in floats(rng) if x[0] == t] + \
                      (["%s:%s" % (t, x) for x in sorted(byw[w]) if not isnan(t, x)] if t != "e" else [])
        else:
            vals[t] = ["%s:%s" % (t, x) for x in sorted(byw[w])]

    def rnd():
        t = rng.choice(list(WIDTH))
        if t == "b":
            return "b:0%d" % rng.randint(0, 1)
        if t in "fde" or rng.random() < 0.4:
            return rng.choice(vals[t])
        w = WIDTH[t]
        k = rng.randint(1, 8 * w)
        v = rng.getrandbits(k)
        if rng.random() < 0.5:
            v = (-v) % (1 << (8 * w))
        return "%s:%s" % (t, v.to_bytes(w, "little").hex())
    streams = []
    everything = [x for t in vals for x in vals[t]]
    rng.shuffle(everything)
    i = 0
    while i < len(everything):
        k = rng.randint(1, 12)
        streams.append(" ".join(everything[i:i + k]))
        i += k
    for _ in range(400 if ctx.quick else 6000):
        streams.append(" ".join(rnd() for _ in range(rng.choice([1, 2, 3, 4, 5, 8, 9, 16, 33, 100]))))
    ctx.add("boundary_values_from_model", len(everything))
    full = 0 if ctx.quick else 1
    sweeps = ["!c 0 ff 1", "!s 0 ffff 1", "!t 0 ffff 1"]
    for t in "ij":
        n = 16
        for k in range(n):
            lo, hi = k << 28, ((k + 1) << 28) - 1
            sweeps.append("!%s %x %x %x" % (t, lo, hi, 1 if full else 7))
    for t in "lmx":
        for k in range(0, 64, 4):        # dense around every power of two, both signs
            for s in (1, -1):
                c = (s * (1 << k)) % (1 << 64)
                lo = max(0, c - 300000)
                sweeps.append("!%s %x %x 1" % (t, lo, min((1 << 64) - 2, c + 300000)))
        sweeps.append("!%s 0 fffffffffffffff0 %x" % (t, 0x400000001b3 if full else 0x40000000001b3))
    for n, _, _ in variants:
        lines = streams + sweeps
        chunks = [lines[i::NCPU] for i in range(NCPU)]
        outs = parallel([(lambda c=c: sh([d + "/" + n], stdin_text=("\n".join(c) + "\n").encode(), timeout=850, check=False)) for c in chunks])
        traces, src = [], []
        for c, p in zip(chunks, outs):
            got = [l for l in p.stdout.decode().split("\n") if l]
            for w, g in zip(c, got):
                traces.append(json.loads(g))
                src.append(w)
            if len(got) < len(c):
                traces.append([dict(k="crash")])
                src.append(c[len(got)])
        for w, t in zip(src, traces):
            if t and t[0]["k"] == "sweep":
                ctx.add("values_swept", t[0]["n"])
        ctx.add("values_round_tripped", sum(len(t) - 1 for t in traces))
        rej = validate(ctx, "TracePacker", "TracePacker.cfg", traces, shards=NCPU)
        for i, pos, names in rej[:5]:
            ctx.violation("%s: build %s, values %s: %s" % (sorted(names), n, src[i][:200], json.dumps(traces[i][pos - 1])[:300]),
                          dict(build=n, values=src[i], event=traces[i][pos - 1]))
        ctx.note("build %s: %d streams validated, %d rejected" % (n, len(traces), len(rej)))
    ctx.samples.append(dict(stream=streams[0]))
    ctx.assumptions += ["little-endian 64-bit target", "signaling NaNs excluded (copying a float through a register may quiet them)"]


def isnan(t, x):
    v = struct.unpack("<f" if t == "f" else "<d", bytes.fromhex(x))[0]
    return v != v
