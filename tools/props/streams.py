"""Behaviours of Stream.tla made concrete."""
import ref
from .common import *

INV = ["SplitsDontMatter", "CutIsError", "Complete", "OnlyVerified", "OnlyThese", "AllThese", "QuietSilent", "SaidVerified", "SaysIt"]
WRONG = (("tee", "OnlyVerified"), ("swallow", "CutIsError"), ("rewind", "OnlyThese"), ("noflush", "AllThese"))
PIECE = [1, 3, 64, 127, 128, 1000, 4096, 8192, 32768, 65536, 65537]


def model(ctx):
    b = ctx.model("Stream", constants=f' MaxN = 3\n MaxFaults = 2\n Design = "sound"\n Emit = TRUE', invariants=INV + ["Printed"], properties=["Ends"], workers=8, allow_never=["NoFlush"])
    for d, e in WRONG:
        ctx.model("Stream", constants=f' MaxN = 2\n MaxFaults = 1\n Design = "{d}"\n Emit = FALSE', invariants=INV, workers=2, expect=e, label=f"Stream {d} (must fail)")
    if not ctx.quick:
        ctx.model("Stream", constants=f' MaxN = 5\n MaxFaults = 3\n Design = "sound"\n Emit = FALSE', invariants=INV, properties=["Ends"], workers=8, allow_never=["NoFlush"], label="Stream deeper")
    return b


def steps(log, c, kind):
    out = []
    for e in log:
        out.append({"r": f"r{e['n'] * c}", "i": "i", "s": "s", "e": kind}[e["k"]])
    return ",".join(out)


class Pool:
    """good and bad signatures over (data, start), made by an independent implementation"""

    def __init__(self, ctx):
        self.k = mkkey(ctx, "stream")
        self.c = {}

    def get(self, d, start, good, legacy, tc):
        key = (d, start, good, legacy, tc)
        if key not in self.c:
            data = ref.expand(d)[start:]
            self.c[key] = refmade(self.k, data if good else data + b"x", tc=tc, legacy=legacy)
        return self.c[key]


def replay(ctx, behs, prop, name="stream"):
    pool = Pool(ctx)
    k = pool.k

    def pre(s):
        load_pk(s, "P", k.pk)
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="K")
    out = Scripts(name, 400, need=[prop], profiles=("dev",), pre=pre)
    for n, b in enumerate(behs):
        c = b["cfg"]
        p = PIECE[n % len(PIECE)] if n % 3 else PIECE[n % 5]
        d = f"p{n % 7}:{c['n'] * p}"
        kind = ("e", "E", "w", "u")[n % 4]
        sched = steps(b["s1"], p, kind)
        if b["s2"]:
            sched += "|" + steps(b["s2"], p, kind)
        start = c["start"] * p
        legacy = c["op"] == "verify" and n % 3 == 1
        meta = {"model": b["ok"]} if b["sure"] else {}
        s = out.get()
        g = f"{c['op']}{c['n']}.{c['start']}.{c['good']}.{p}.{n % 7}.{legacy}.{c['output']}.{c['sink']}"
        if c["op"] == "sign":
            s.op("sign", sk="K", data=d, start=start, reader=sched, tc=b"t", uc=b"u", to="g", meta=meta, grp=g, gp="C12")
        else:
            tc = (b"the comment", b"", "é ".encode(), b"timestamp:1700000000")[n % 4]
            m = pool.get(d, start, c["good"], legacy, tc)
            load_sig(s, "g", m.bones, m.tc, m.gsig)
            s.op("verify", pk="P", sig="g", data=d, start=start, reader=sched, quiet=c["quiet"], output=c["output"], legacy=legacy or n % 2 == 0,
                 stdout=("file" if c["sink"] == "file" else ("full", "pipe")[n % 2]), meta=meta, grp=g if c["sink"] == "file" else None, gp="C12")
        s.op("drop", reg="g")
    return out


BASES = [1, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 3, 1 << 32, (1 << 32) + 65536, (1 << 40) + 7, (1 << 63) - 100_000]


def far(ctx, prop):
    """readers whose position, when they are handed over, is beyond what 31, 32 or 53 bits can tell"""
    pool = Pool(ctx)
    k = pool.k

    def pre(s):
        load_pk(s, "P", k.pk)
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="K")
    out = Scripts("far", 300, need=[prop], profiles=("dev", "release"), pre=pre)
    n = 0
    for base in BASES:
        for d, start in (("p1:1000", 0), ("p2:70000", 3), ("h0a61", 1), ("p3:9", 9), ("h", 0)):
            n += 1
            s = out.get()
            for good in (True, False):
                m = pool.get(d, start, good, n % 2 == 0, b"far")
                load_sig(s, "g", m.bones, m.tc, m.gsig)
                for fl in (2, 3, 0):
                    s.op("verify", pk="P", sig="g", data=d, base=base, start=start, reader=("", "*r7|*r64", "i,r1|i")[n % 3] if len(d) < 8 else "", **flags(fl | 4))
            s.op("sign", sk="K", data=d, base=base, start=start, tc=b"far", to="h")
            s.op("verify", pk="P", sig="h", data=d, base=base, start=start, **flags(2))
    return out
