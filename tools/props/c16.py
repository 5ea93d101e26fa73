"""C16: scrypt parameters are derived as specified and bounded."""
import ref
from .common import *

NEED = ["C16"]
PW = b"correct horse"
SALT = ref.sha512(b"c16")[:32]


def le(b):
    return int.from_bytes(bytes(b), "little")


def sealed(k, ops, mem, forced=None):
    lim = ops.to_bytes(8, "little") + mem.to_bytes(8, "little")
    st = ref._scrypt(PW, SALT, *forced, 104) if forced else bytes(104)
    return b"EdScB2" + SALT + lim + ref.xor(k.core(), st)


def check(ctx):
    ctx.prepare()
    if not ctx.quick:
        ctx.xmx = "5g"
    grid = ctx.model("KdfMC", constants=" Emit = TRUE", invariants=["Declarative", "Bounded", "Refused", "Default", "Printed"], allow_never=True, workers=1)
    k = mkkey(ctx, "c16")
    ok = [x for x in grid if x["ok"]]
    no = [x for x in grid if not x["ok"]]
    ctx.rng.shuffle(ok)
    ctx.rng.shuffle(no)
    level = lambda x: x["cost"].bit_length() - 1
    top = 12 if ctx.quick else 20
    per = {}
    chosen = []
    for x in ok:
        q = (x["q"]["logn"], x["q"]["p"])
        n = per.get(q, 0)
        lv = level(x)
        most = (60 if lv <= 10 else 16 if lv <= 11 else 8) if ctx.quick else (10**6 if lv <= 12 else 40 if lv <= 15 else 8 if lv <= 17 else 2)
        if lv <= top and n < most:
            per[q] = n + 1
            chosen.append(x)
        elif lv <= 16 and n == 0 and ctx.rng.random() < 0.35:
            per[q] = 1
            chosen.append(x)
    # the presets of other implementations, and the default
    presets = [(32768, 1 << 20), (524288, 16777216), (DEFOPS, DEFMEM), (33554432, 1073741824), (4194304, 134217728), (2097152, 67108864),
               (32768, 16777216), (33554432 // 2, 1073741824 // 2 if not ctx.quick else 1 << 27)]
    points = [(le(x["ops"]), le(x["mem"]), (x["q"]["logn"], 8, x["q"]["p"])) for x in chosen]
    points += [(o, m, ref.pick(o, m)) for o, m in presets]
    # limits between the thresholds
    for _ in range(300 if ctx.quick else 4000):
        o, m = ctx.rng.getrandbits(ctx.rng.randint(10, 22)), ctx.rng.getrandbits(ctx.rng.randint(10, 30))
        q = ref.pick(o, m)
        if q[2] >= 1 and q[0] <= 20 and (q[2] << q[0]) <= 1 << (12 if ctx.quick else 16):
            points.append((o, m, q))
    points.sort(key=lambda x: (-(x[2][2] << x[2][0]), x[2]))
    # the work is spread by cost; equal parameters stay together, so that the specification derives once
    rel = []
    budget = 1 << 16
    small = {}
    for i, (o, m, q) in enumerate(points):
        cost = q[2] << q[0]
        if not rel or len(rel[-1]) >= 250 or (rel[-1].units + cost > budget * (1 if ctx.quick else 40) and len(rel[-1])):
            s = Script(f"grid{len(rel)}", bundle="big" if cost >= 1 << 18 else None, profiles=("release",), need=NEED, cpu=600)
            s.units = 0
            rel.append(s)
        s = rel[-1]
        s.units += cost
        s.op("sk_load", carrier="box", in_=ref.sk_text(sealed(k, o, m, q), b"c"), pw=PW, to="k", meta={"model": True})
        if i % 16 == 0:
            s.op("pk_from_sk", sk="k", to="p")
        if cost <= 1 << 11 and small.setdefault(q, 0) < 2:
            small[q] += 1
    # some of them in the checked build too
    dbg = Scripts("dbg", 30, need=NEED, profiles=("dev",))
    for o, m, q in points:
        if (q[2] << q[0]) <= 1 << 11 and small.get(q, 0) > 0:
            small[q] -= 2
            dbg.get().op("sk_load", carrier="box", in_=ref.sk_text(sealed(k, o, m, q), b"c"), pw=PW, to="k", meta={"model": True})
    # refused: in order of what attempting them would cost
    ref_ = []
    lim = [(MAXOPS + 1, 1 << 20), (MAXOPS + 1, 0), (32768, MAXMEM + 1), (32768, MAXMEM + 1024), (0, 2**31), (0, 2**31 - 1), (0, 2**32), (0, 2**32 + (1 << 20)), (0, 2**63), (0, 2**64 - 1), (2**32, 1 << 20), (2**32 + 32768, 1 << 20),
           (2**63, 1 << 20), (2**64 - 1, 1 << 20), (2**64 - 1, 2**64 - 1), (2**32 + DEFOPS, DEFMEM), (DEFOPS, 2**32 + DEFMEM), (MAXOPS + 1, MAXMEM), (MAXOPS, MAXMEM + 1), (2**31, 0), (2**31 - 1, 1 << 20),
           (2**26, 1 << 20), (2**27, 1 << 20), (2**33, 1 << 27), (32768, 2**34), (65536, 2**33), (DEFOPS, 2**31), (1 << 20, 1 << 40)]
    pts = [(o, m) for o, m in lim] + [(le(x["ops"]), le(x["mem"])) for x in no[:300 if ctx.quick else 3425]]
    soft = Scripts("refused", 40, need=NEED, profiles=("dev", "release"), cpu=60)
    for o, m in pts:
        q = ref.pick(o, m)
        trunc = ref.pick(o % 2**32, m % 2**32)
        forced = [f for f in ((q,) if q[2] else ()) + ((trunc,) if trunc[2] and trunc != q else ()) if f[2] << f[0] <= 1 << 16 and f[0] <= 16]
        for f in forced or [None]:
            soft.get().op("sk_load", carrier=("box", "file")[o % 2], in_=ref.sk_text(sealed(k, o, m, f), b"c"), pw=PW, to="k", meta={"model": False})
    return standard(ctx, rel, dbg, soft, note="KdfMC.tla model checked (declarative reformulation, bounds) and its grid replayed with keys sealed by an independent scrypt; judged by TLC against Judge.tla/Kdf.tla",
                    extra={"parameters": len(per), "grid_points": len(points), "refused_points": len(pts)})
