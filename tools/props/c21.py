"""C21: what a call takes is bounded by what was asked for, and nothing of it remains."""
import ref
from .common import *

INV = ["TypeOK", "StreamsInPlace", "InProportion", "AsAgreed", "NothingLeft"]
WRONG = [("collect", "StreamsInPlace"), ("tee", "StreamsInPlace"), ("doubling", "InProportion"), ("eager", "AsAgreed"),
         ("leak", "NothingLeft"), ("careless", "NothingLeft"), ("remember", "NothingLeft")]
NOTE = "Memory.tla (what calls hold while they run and when they returned; seven wasteful designs shown to fail) model checked, its behaviours replayed with data of many MiB in a driver that counts allocations; texts of MiB in many shapes; thousands of calls of every kind, after which TLC asks what remained"
M = 1 << 20
VARY = b"@@"


def xhex(b):
    """hex of bytes in which @@ stands for four bytes that differ each time"""
    a, z = b.split(VARY)
    return a.hex() + "@@" + z.hex()


def histories(ctx, behs, limit):
    """behaviours of Memory.tla: a piece is 8 MiB of data, 64 KiB of text, 16 MiB of derivation"""
    k = mkkey(ctx, "mem")
    out = Scripts("memory", 24, profiles=("release",), need=["C21"])
    piece = 8 * M
    cache = {}

    def bones(n, legacy):
        if (n, legacy) not in cache:
            cache[n, legacy] = ref.bones_sparse(k, f"Z0:{n * piece + 5}", legacy)
        return cache[n, legacy]
    for x, b in enumerate(behs[:limit]):
        s = out.get()
        if len(s) == 0:
            load_pk(s, "p", k.pk)
            load_pk(s, "f", mkkey(ctx, "mem2", k.keynum).pk)
            s.op("sk_load", carrier="bytes", in_=k.sk(), to="k")
            s.op("sk_load", carrier="bytes", in_=k.sk(pw=b"p", salt=bytes(32), **LOW), to="e")
        for e in b:
            n, op = e["n"], e["op"]
            d = f"Z0:{n * piece + 5}"
            # in pieces as large as asked for, or smaller, or of sizes that differ
            step = [None, "*r4096", "r1,r70000,r3,*r65535", "*r1000", "r65536,r1,*r30000"][(x + n) % 5]
            stop = f"@{e['at'] * piece + (5, 1)[x % 2]}" if e["r"] == "fault" else None
            one, two = [step], [step if x % 2 else None]
            (two if e["pass"] == 2 else one).append(stop)
            sched = "|".join(",".join(y for y in z if y) for z in (one, two)).rstrip("|") or None
            if op == "sign":
                kw = dict(sk="k" if e["good"] else "e", data=d, reader=sched, to="g")
                if x % 3 == 0:
                    kw["pk"] = "p" if e["good"] else "f"
                s.op("sign", **kw)
            elif op in ("verify", "output", "legacy"):
                leg = op == "legacy"
                bs = bones(n, leg)
                tc = b"t" if x % 2 else b"x" * 700
                if x % 5 == 4:
                    load_sig(s, "v", bs)
                else:
                    load_sig(s, "v", bs, tc=tc, gsig=ref.ed_sign(k.seed, bs[10:] + tc))
                if not e["good"]:
                    d = [d + "^0:01", d + f"^{n * piece + 4}:80", f"Z0:{n * piece + 4}", d][x % 4]
                s.op("verify", pk="f" if not e["good"] and x % 4 == 3 else "p", sig="v", data=d, reader=sched, quiet=x & 1, output=int(op == "output" or (leg and x % 3 == 0)),
                     legacy=int(leg or x % 2))
            elif op == "load":
                c = b"c" * (n * 65536)
                if x % 3 == 0:
                    s.op("sig_load", carrier=("string", "file")[x % 2], in_=ref.sig_text(bones(0, False), c, bytes(64), c) if e["good"] else c, to="v")
                elif x % 3 == 1:
                    s.op("sk_load", carrier="ubox", in_=ref.sk_text(k.sk(), c) if e["good"] else c, to="x")
                else:
                    s.op("pk_load", carrier=("box", "file")[x % 2], in_=ref.pk_text(k.pk, c) if e["good"] else c, to="x")
            elif op == "open":
                pars = [dict(LOW), dict(ops=2 * DEFOPS, mem=16 * M), dict(ops=DEFOPS, mem=DEFMEM),
                        [dict(ops=MAXOPS + 1, mem=DEFMEM), dict(ops=DEFOPS, mem=MAXMEM + 1), dict(ops=(1 << 64) - 1, mem=(1 << 64) - 1), dict(ops=0, mem=MAXMEM),
                         dict(ops=1 << 32, mem=1 << 20), dict(ops=0, mem=(1 << 32) + 5)][x % 6]][n]
                key = ("open", n, e["good"], x % 6 if n == 3 else 0)
                if key not in cache:
                    if n == 3:
                        # nothing to derive: what the parameters ask for is refused
                        t = k.sk()
                        cache[key] = t[:2] + b"Sc" + t[4:6] + bytes(32) + pars["ops"].to_bytes(8, "little") + pars["mem"].to_bytes(8, "little") + t[54:]
                    else:
                        cache[key] = k.sk(pw=b"p" if e["good"] else b"q", salt=ref.sha512(repr(key).encode())[:32], **pars)
                s.op("sk_load", carrier=("box", "boxfrom", "file")[x % 3], in_=ref.sk_text(cache[key], b"c"), pw=b"p", to="x")
    return out


def texts(ctx):
    """long texts in many shapes, good and bad ones"""
    k = mkkey(ctx, "mem")
    bs = k.bones(b"m")
    out = Scripts("bigtext", 6, profiles=("release",), need=["C21"], cpu=120)
    sizes = [100_000, 2_000_000] if ctx.quick else [100_000, 2_000_000, 16_000_000]

    def shapes(n):
        yield "c" * n
        yield "\n" * n
        yield "\r\n" * (n // 2)
        yield "a\n" * (n // 2)
        yield "\u00e9" * (n // 2)
        yield " " * n
        yield "A" * n
        yield "untrusted comment: " * (n // 19)
        yield "untrusted comment: c\n" * (n // 21)
        yield ref.b64(bytes(n * 3 // 4)).decode()
        yield "=" * n
        yield ref.pk_text(k.pk).decode() * (n // 100)
        yield "\0" * n
        yield "\U0001f512\n" * (n // 5)
    for n in sizes:
        for i, t in enumerate(shapes(n)):
            t = t.encode()
            one = b"\n" not in t
            forms = [t, b"untrusted comment: c\n" + t]
            if one:
                forms += [b"untrusted comment: " + t + b"\n"]
            for f in forms:
                s = out.get()
                s.op("pk_load", carrier=("box", "boxfrom", "file")[i % 3], in_=f, to="x")
                s.op("sk_load", carrier=("ubox", "uboxfrom")[i % 2], in_=f, to="x")
                s.op("sk_load", carrier=("box", "boxfrom", "file")[i % 3], in_=f, pw=b"p", to="x")
                s.op("sig_load", carrier=("string", "file")[i % 2], in_=f, to="x")
                s.op("pk_load", carrier="b64", in_=f, to="x")
                s.op("pk_load", carrier="bytes", in_=f, to="x")
                s.op("sk_load", carrier="bytes", in_=f, to="x")
                s.op("sig_load", carrier="bones", in_=f, to="x")
            s = out.get()
            s.op("let", in_=t, to="x")
            s.op("drop", reg="x")
            g = ref.ed_sign(k.seed, bs[10:] + (t if one else b""))
            if one:
                # good ones
                load_pk(s, "p", k.pk)
                s.op("sig_load", carrier="string", in_=ref.sig_text(bs, t, g, t), to="v")
                s.op("verify", pk="p", sig="v", data="h6d", quiet=0, output=1, legacy=0)
                for c in ("string", "into", "bytes", "bones"):
                    s.op("sig_store", sig="v", carrier=c, to="o")
                s.op("sig_bones", sig="v", to="w")
                s.op("sk_load", carrier="ubox", in_=ref.sk_text(k.sk(), t), to="k")
                s.op("sk_load", carrier="box", in_=ref.sk_text(k.sk(pw=b"p", salt=bytes(32), **LOW), t), pw=b"p", to="k")
                s.op("pk_load", carrier="box", in_=ref.pk_text(k.pk, t), to="q")
                if b"\0" not in t:
                    s.op("sign", sk="k", data="h6d", tc=t, uc=t, to="g")
                    s.op("sk_store", sk="k", carrier="box", comment=t, to="o")
                s.op("genw", kind="enc", pw=b"p", comment=t, pkto="a", skto="b") if i == 0 else None
            s.op("sig_load", carrier="string", in_=ref.sig_text(bs, b"t", g, b"c") + t, to="v")
            s.op("sk_load", carrier="ubox", in_=ref.sk_text(k.sk(), b"c") + t, to="k")
            s.op("pk_load", carrier="box", in_=ref.pk_text(k.pk, b"c") + t, to="q")
    return out


def again(ctx):
    """every call, thousands of times: what remains does not depend on how often"""
    k, k2 = mkkey(ctx, "mem"), mkkey(ctx, "mem2")
    bs, lg = k.bones(b"m"), k.bones(b"m", True)
    tc = b"t c"
    n = 2000 if ctx.quick else 9000
    pkb, skb = ref.pk_text(k.pk, b"c"), ref.sk_text(k.sk(), b"c")
    sealed = k.sk(pw=b"p", salt=bytes(32), **LOW)
    good, old = ref.sig_text(bs, tc, ref.ed_sign(k.seed, bs[10:] + tc), b"u"), ref.sig_text(lg, tc, ref.ed_sign(k.seed, lg[10:] + tc), b"u")
    flip = good[:60] + b"@@" + good[64:]
    calls = []

    def c(do, count=n, **kw):
        calls.append((do, count, kw))
    v4 = "@@"
    # signing
    c("sign", sk="k", data="h" + v4, to="g")
    c("sign", sk="k", data="h" + v4, tc="61" + v4, uc="62" + v4, to="g")
    c("sign", sk="k", pk="p", data="p1:3000", tc=v4, to="g")
    c("sign", sk="k", pk="p2", data="h" + v4, to="g")
    c("sign", sk="e", data="h" + v4, to="g")
    c("sign", sk="z", data="h" + v4, to="g")
    c("sign", sk="k", data="p1:3000", reader="r100,e", to="g")
    # verification
    for kw in (dict(sig="v", data="h6d"), dict(sig="v", data="h" + v4), dict(sig="o", data="h6d", legacy=1), dict(sig="o", data="h" + v4, legacy=1),
               dict(sig="o", data="h6d"), dict(sig="w", data="h6d"), dict(sig="v", data="h6d", pk="p2"), dict(sig="v", data="h6d", reader="e"), dict(sig="v", data="h6d", reader="|e")):
        for q, o in ((0, 0), (1, 1), (0, 1)):
            c("verify", count=n // 2, **{**dict(pk="p", quiet=q, output=o, legacy=0), **kw})
    # public keys
    c("pk_load", carrier="bytes", in_=xhex(k.pk[:20] + VARY + k.pk[24:]), to="x")
    c("pk_load", carrier="bytes", in_=xhex(VARY + k.pk), to="x")
    c("pk_load", carrier="b64", in_=xhex(ref.b64(k.pk)[:20] + VARY + ref.b64(k.pk)[24:]), to="x")
    c("pk_load", carrier="b64", in_=xhex(b"!!" + VARY), to="x")
    for car in ("box", "boxfrom", "boxrt"):
        c("pk_load", carrier=car, in_=xhex(b"untrusted comment: " + VARY + pkb[20:]), to="x")
        c("pk_load", carrier=car, in_=xhex(VARY + pkb), to="x")
    c("pk_load", carrier="file", count=400, in_=xhex(pkb[:40] + VARY + pkb[44:]), to="x")
    c("pk_load", carrier="file", count=400, in_=xhex(b"\xff" + VARY), to="x")
    c("pk_load", carrier="missing", count=400, in_="00", to="x")
    for car in ("bytes", "b64", "box", "boxinto", "boxbytes"):
        c("pk_store", pk="p", carrier=car, to="x")
    c("pk_from_sk", sk="k", to="x")
    c("pk_from_sk", sk="e", to="x")
    # secret keys
    c("sk_load", carrier="bytes", in_=xhex(k.sk()[:70] + VARY + k.sk()[74:]), to="x")
    c("sk_load", carrier="bytes", in_=xhex(VARY), to="x")
    for car in ("ubox", "uboxfrom"):
        c("sk_load", carrier=car, in_=xhex(b"untrusted comment: " + VARY + skb[20:]), to="x")
        c("sk_load", carrier=car, in_=xhex(skb[:120] + VARY + skb[124:]), to="x")
    st = ref.sk_text(sealed, b"c")
    few = 200 if ctx.quick else 1500
    for car in ("box", "boxfrom", "file"):
        c("sk_load", carrier=car, count=few, in_=xhex(b"untrusted comment: " + VARY + st[20:]), pw="70", to="x")
        c("sk_load", carrier=car, count=few, in_=st.hex(), pw=v4, to="x")
        c("sk_load", carrier=car, count=few, in_=xhex(st[:200] + VARY + st[204:]), pw="70", to="x")
    c("sk_load", carrier="box", count=few * 4, in_=skb.hex(), pw=v4, to="x")
    for car in ("bytes", "box", "boxinto", "boxbytes"):
        c("sk_store", sk="k", carrier=car, comment="63" + v4, to="x")
        c("sk_store", sk="e", carrier=car, to="x")
    # signatures
    c("sig_load", carrier="bones", in_=xhex(bs[:30] + VARY + bs[34:]), to="x")
    c("sig_load", carrier="bones", in_=xhex(b"x" + VARY), to="x")
    for car in ("string", "from", "file"):
        m = 400 if car == "file" else n
        c("sig_load", carrier=car, count=m, in_=xhex(b"untrusted comment: " + VARY + good[20:]), to="x")
        c("sig_load", carrier=car, count=m, in_=xhex(flip), to="x")
        c("sig_load", carrier=car, count=m, in_=xhex(VARY + good), to="x")
    for car in ("string", "into", "from", "bytes", "bones"):
        c("sig_store", sig="v", carrier=car, to="x")
    c("sig_bones", sig="v", to="x")
    c("pk_eq", pk="p", other="p2")
    c("sk_eq", sk="k", other="z")
    # making keys
    c("gen", kind="plain", pkto="x", skto="y")
    c("genw", kind="plain", pkto="x", skto="y", pkwto="a", skwto="b")
    c("genw", kind="plain", wpk="w10,e", pkto="x", skto="y")
    few = 16 if ctx.quick else 200
    c("gen", count=few, kind="enc", pw=v4, pkto="x", skto="y")
    c("genw", count=few, kind="enc", pw="70", comment="63" + v4, pkto="x", skto="y", pkwto="a", skwto="b")

    def pre(s):
        load_pk(s, "p", k.pk)
        load_pk(s, "p2", k2.pk)
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="k")
        s.op("sk_load", carrier="bytes", in_=sealed, to="e")
        s.op("sk_load", carrier="bytes", in_=k.sk()[:-1] + b"\0", to="z")
        s.op("sig_load", carrier="string", in_=good, to="v")
        s.op("sig_load", carrier="string", in_=old, to="o")
        s.op("sig_load", carrier="bones", in_=bs, to="w")
    out = Scripts("again", 14, profiles=("release",), need=["C21"], pre=pre)
    for do, count, kw in calls:
        out.get().op("again", n=count, do=do, **kw)
    # failing generators
    s = out.get()
    s.op("rng", mode="fail:2:5")
    s.op("again", n=n, do="gen", kind="plain", pkto="x", skto="y")
    s.op("rng", mode="fail:1:5")
    s.op("again", n=n, do="sign", sk="k", data="h6d", to="g")
    return out


def check(ctx):
    ctx.prepare(("release",))
    q = ctx.quick
    behs = ctx.model("Memory", constants=' MaxCalls = 2\n MaxN = 3\n Design = "stream"\n Emit = TRUE', invariants=INV + ["Printed"], workers=4)
    ctx.model("Memory", constants=f' MaxCalls = {2 if q else 3}\n MaxN = {5 if q else 4}\n Design = "stream"\n Emit = FALSE', invariants=INV, properties=["Ends"], workers=8, label="Memory deeper")
    for d, i in WRONG:
        ctx.model("Memory", constants=f' MaxCalls = 2\n MaxN = 3\n Design = "{d}"\n Emit = FALSE', invariants=INV, expect=i, workers=2, label=f"Memory {d} (must fail)")
    ctx.rng.shuffle(behs)
    return standard(ctx, again(ctx), texts(ctx), histories(ctx, behs, 500 if q else 6000), note=NOTE)
