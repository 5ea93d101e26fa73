"""C07: keys, key ids, salts and nonces are fresh; failures of the random generator are errors."""
import ref
from .common import *

INV = ["NonceUnique", "AllFresh", "FailClosed", "Counted"]
NOTE = "Rng.tla model checked for the hedged and the deterministic design (and shown to fail for a drawn nonce); its behaviours replayed with the system generator replaced; TLC accumulates nonces and random values"


class Seeds:
    n = 0

    @classmethod
    def next(cls):
        cls.n += 1
        return cls.n


def setmode(ctx, s, kind, k, c=0):
    n = ctx.seed * 100003 % 2**31 + Seeds.next()
    s.op("rng", mode={"sound": f"seed:{n}", "failing": f"fail:{k}:{n}", "stuck": f"const:{c}", "real": "real", "eintr": f"eintr:{n}"}[kind])


def gen(s, kind, mode, i, written=None):
    m = {"constrng": True} if mode == "stuck" else {"fresh": True}
    written = i % 2 if written is None else written
    if written:
        s.op("genw", kind=kind, pw=b"pw" if kind == "enc" else None, pkto=f"p{i}", skto=f"k{i}", pkwto="a", skwto="b", comment=b"c" if kind == "enc" else None, meta=m, need=[])
    else:
        s.op("gen", kind=kind, pw=b"pw" if kind == "enc" else None, pkto=f"p{i}", skto=f"k{i}", meta=m, need=[])


def check(ctx):
    ctx.prepare()
    q = ctx.quick
    behs = ctx.model("Rng", constants=f' MaxOps = {2 if q else 3}\n Design = "hedged"\n Emit = TRUE', invariants=INV + ["Printed"], workers=4)
    ctx.model("Rng", constants=f' MaxOps = {3 if q else 4}\n Design = "hedged"\n Emit = FALSE', invariants=INV, workers=8, label="Rng deeper")
    ctx.model("Rng", constants=f' MaxOps = 3\n Design = "deterministic"\n Emit = FALSE', invariants=INV, workers=8, label="Rng deterministic")
    ctx.model("Rng", constants=' MaxOps = 2\n Design = "drawn"\n Emit = FALSE', invariants=INV, workers=2, label="Rng drawn (must fail)", expect="NonceUnique")
    k = mkkey(ctx, "c07")
    k2 = mkkey(ctx, "c07b")

    def pre(s):
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="k")
        s.op("sk_load", carrier="bytes", in_=k2.sk(), to="kk")
        s.op("sk_load", carrier="box", in_=k.sk_text(pw=b"pw", **LOW), pw=b"pw", to="ke")
    out = Scripts("rng", 120, profiles=("release",), pre=pre)
    ctx.rng.shuffle(behs)
    enc = 45 if q else 400
    DATA = {"m1": "h6d", "m2": "h6e"}
    for bi, b in enumerate(behs if q else behs[:6000]):
        cost = sum(1 for e in b if e["op"] == "genenc" and e["ok"])
        if cost > enc:
            continue
        enc -= cost
        s = out.get()
        for i, e in enumerate(b):
            setmode(ctx, s, e["mode"], e["k"], bi % 3 * 85)
            if e["op"] == "sign":
                s.op("sign", sk=("k", "ke", "kk")[bi % 3], data=DATA[e["m"]], tc=e["t"].encode(), uc=b"u", to="g", need=["C02"])
            else:
                gen(s, "enc" if e["op"] == "genenc" else "plain", e["mode"], (bi + i) % 4)
    # one long history with a stuck generator: messages that share most of what is hashed
    long = Scripts("stuck", 10**6, profiles=("release", "dev"), pre=pre)
    s = long.get()
    datas = ["h", "h00", "h0000", "z0:64", "z0:128", "p1:200", "p1:200^199:1", "p1:200^0:1", "p1:4096", "p1:4096^4095:80", "p1:200000", "p1:200000^199999:1", "p1:200000^70000:1"]
    base = b"A" * 400
    tcs = [b"", b" ", b"A", base, base + b"B", base[:-1] + b"B", b"B" + base[1:], base[:64] + b"B" + base[65:], base[:63], base[:64], base[:65], base[:127], base[:128], base[:129], base[:192], b"timestamp:1", b"timestamp:2", "é".encode()]
    for c in (0, 255, 42):
        setmode(ctx, s, "stuck", 0, c)
        for d in datas:
            for t in (tcs if d in ("h", "p1:200") or not q else tcs[:4]):
                s.op("sign", sk="k", data=d, tc=t, to="g")
        for d in datas:
            s.op("sign", sk="kk", data=d, tc=b"", to="g")
            s.op("sign", sk="k", data=d, to="g")
    # a generator in order: the real one, and interrupted ones
    real = Scripts("real", 10**6, profiles=("release",), pre=pre)
    s = real.get()
    setmode(ctx, s, "real", 0)
    for i in range(60 if q else 400):
        gen(s, "plain", "real", i % 3)
        s.op("sign", sk="k", data=f"p{i}:100", tc=b"t%d" % i, to="g")
        s.op("sign", sk="k", data="h6d", tc=b"t", to="g")
    for i in range(12 if q else 60):
        setmode(ctx, s, "eintr", 0)
        gen(s, "plain", "real", i % 2)
        s.op("sign", sk="k", data=f"p{i}:100", tc=b"t%d" % i, to="g", need=[])
    encr = Scripts("realenc", 10**6, profiles=("release",))
    s = encr.get()
    setmode(ctx, s, "real", 0)
    for i in range(50 if q else 200):
        gen(s, "enc", "real", i % 3)
    # every draw of every operation fails in turn, in both builds
    fail = Scripts("fail", 100, profiles=("release", "dev"), pre=pre)
    for kk in range(1, 9):
        s = fail.get()
        for w in (0, 1):
            setmode(ctx, s, "failing", kk)
            gen(s, "plain", "failing", kk, w)
            if kk <= 4:
                setmode(ctx, s, "failing", kk)
                gen(s, "enc", "failing", kk, w)
        for sk in ("k", "ke"):
            setmode(ctx, s, "failing", kk)
            s.op("sign", sk=sk, data="h6d", tc=b"t", to="g")
            s.op("sign", sk=sk, data="h6d", to="g")
            s.op("sign", sk=sk, data="p1:100000", tc=b"", uc=b"", to="g")
    # an operation that failed leaves nothing behind that a later one would use
    mix = Scripts("mix", 100, profiles=("release",), pre=pre)
    for i in range(24 if q else 200):
        s = mix.get()
        setmode(ctx, s, "failing", 1 + i % 4)
        gen(s, "plain", "failing", i)
        s.op("sign", sk="k", data=f"p{i}:10", tc=b"", to="g")
        setmode(ctx, s, "sound", 0)
        gen(s, "plain", "sound", i + 1)
        s.op("sign", sk="k", data=f"p{i}:10", tc=b"", to="g")
        s.op("sign", sk="k", data=f"p{i}:11", tc=b"", to="g")
        gen(s, "plain", "sound", i)
    return standard(ctx, out, long, real, encr, fail, mix, note=NOTE)
