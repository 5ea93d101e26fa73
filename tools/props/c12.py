"""C12: results depend on the bytes of the stream, never on how it is read."""
import ref
from . import streams
from .common import *

CAPS = [1, 2, 3, 7, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 32768, 65535, 65536, 65537, 100000]
SIZES = [0, 1, 2, 127, 128, 129, 255, 256, 257, 8191, 8192, 8193, 65535, 65536, 65537, 131071, 131072, 131073, 200000]


def check(ctx):
    ctx.prepare()
    q = ctx.quick
    rng = ctx.rng
    behs = streams.model(ctx)
    rng.shuffle(behs)
    groups = [streams.replay(ctx, behs[:3000] if q else behs, "C12")]
    pool = streams.Pool(ctx)
    k = pool.k

    def pre(s):
        load_pk(s, "P", k.pk)
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="K")
    sizes = SIZES if q else sorted(set(SIZES + LENS_T))
    out = Scripts("caps", 400, need=["C12"], profiles=("release",), pre=pre)
    n = 0
    for size in sizes:
        d = f"p{size % 97}:{size}"
        caps = [""] + [f"*r{c}" for c in CAPS if size / c < 70000 and (not q or c in (1, 3, 64, 127, 128, 129, 65535, 65536, 65537) or (size + c) % 3 == 0)]
        # irregular splits
        for _ in range(4 if q else 30):
            caps.append(",".join(f"r{rng.choice([1, 2, 63, 64, 127, 128, 129, 500, 4096, 65535, 65536])}" for _ in range(rng.randrange(1, 40))))
            caps.append(f"*r{rng.choice(CAPS[6:])}," + ",".join(f"r{rng.randrange(1, 300)}" for _ in range(rng.randrange(1, 9))))
            caps.append(",".join(rng.choice(["i", f"r{rng.randrange(1, 400)}"]) for _ in range(rng.randrange(1, 12))))
        for start in {0, min(size, 1), size // 2, size, size + 5} if q else {0, 1, min(size, 128), size // 3, size // 2, size, size + 5}:
            for legacy in (False, True):
                for good in (True, False):
                    m = pool.get(d, start, good, legacy, b"t")
                    sel = caps if start == 0 and good else caps[:1] + rng.sample(caps[1:], min(3, len(caps) - 1))
                    for sched in sel:
                        s = out.get()
                        load_sig(s, "g", m.bones, m.tc, m.gsig)
                        s.op("verify", pk="P", sig="g", data=d, start=start, reader=sched, grp=f"v{d}.{start}.{good}.{legacy}.{n % 3 == 0}", gp="C12", quiet=1, output=n % 3 == 0, legacy=1)
                        n += 1
            for sched in caps[:1] + rng.sample(caps[1:], min(6 if q else 20, len(caps) - 1)):
                s = out.get()
                s.op("sign", sk="K", data=d, start=start, reader=sched, tc=b"t", uc=b"u", to="s", grp=f"s{d}.{start}", gp="C12")
                s.op("verify", pk="P", sig="s", data=d, start=start, grp=f"sv{d}.{start}", gp="C12", **flags(0))
    # a failure at every point
    cut = Scripts("cut", 400, need=["C12"], profiles=("dev",), pre=pre)
    points = [(300, 1, p) for p in range(0, 301, 7 if q else 1)] + [(1000, 64, p) for p in range(0, 17)] + [(300000, 65536, p) for p in range(0, 6)] + [(300000, 65537, p) for p in range(0, 6)] + [(300000, 1000, p) for p in range(0, 301, 43 if q else 5)] + \
             [(65536, 65536, 0), (65536, 65536, 1), (131072, 65536, 2), (131072, 8192, 16), (1, 1, 0), (1, 1, 1), (0, 1, 0), (128, 128, 1), (129, 128, 1), (256, 128, 2), (70000, 8192, 8)]
    for i, (size, cap, p) in enumerate(points):
        d = f"p5:{size}"
        for kind in ("e", "E", "w", "u", "i", "i,i,i,e", "i,e"):
            sched = ",".join(["*r%d" % cap] * (p > 0) + ["r%d" % cap] * max(0, p - 1) + [kind])
            for legacy in (False, True):
                # a signature that would be good for what was delivered before the failure, and one for everything
                for part in (True, False):
                    data = ref.expand(d)
                    key = (d, p * cap if part else None, legacy)
                    if key not in pool.c:
                        pool.c[key] = refmade(k, data[:p * cap] if part else data, tc=b"t", legacy=legacy)
                    m = pool.c[key]
                    s = cut.get()
                    load_sig(s, "g", m.bones, m.tc, m.gsig)
                    s.op("verify", pk="P", sig="g", data=d, reader=sched, **flags(4 + (i + part) % 4))
            s = cut.get()
            s.op("sign", sk="K", data=d, reader=sched, tc=b"t", to="s")
            s.op("verify", pk="P", sig="s", data=d, **flags(0))
    groups += [out, cut, streams.far(ctx, "C12")]
    return standard(ctx, *groups, note="Stream.tla model checked (unsafe designs shown to fail) and replayed; every size and split around internal buffers, a failure at every point; TLC judges each call and compares calls over the same bytes")
