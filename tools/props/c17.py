"""C17: signing refuses a public key that does not match the secret key."""
import ref
from .common import *

NEED = ["C17"]
INV = ["SignedMatches", "MatchingAccepted", "SameAsWithout", "OnlyOpen", "OnlyRead"]


def check(ctx):
    ctx.prepare()
    q = ctx.quick
    behs = ctx.model("Pair", constants=' Design = "global"\n Emit = TRUE', invariants=INV + ["Printed"], properties=["Ends"])
    for d in ("data", "both"):
        ctx.model("Pair", constants=f' Design = "{d}"\n Emit = FALSE', invariants=INV, properties=["Ends"], label=f"Pair {d}")
    for d in ("copy", "id", "seed", "late"):
        ctx.model("Pair", constants=f' Design = "{d}"\n Emit = FALSE', invariants=INV, expect="SignedMatches", label=f"Pair {d} (must fail)")
    A, B = mkkey(ctx, "A"), mkkey(ctx, "B")
    K = {"A": A, "B": B}
    J = bytes([x ^ 0x41 for x in A.keynum])
    salt = bytes(range(32))

    def skbytes(seed, copy, keynum, alg=b"Ed"):
        s64 = seed.seed + copy.pub
        return alg + b"\0\0B2" + salt + bytes(16) + keynum + s64 + ref.blake2b(alg + keynum + s64, 32)

    def pkbytes(p, n=0):
        key = {"A": A.pub, "B": B.pub, "zero": bytes(32), "neutral": [NEUTRAL, NEUTRAL_NEG, NEUTRAL_NC][n % 3],
               "junk": [b"\2" + bytes(31), b"\xff" * 32, bytes(31) + b"\x80", b"\xec" + b"\xff" * 30 + b"\x7f"][n % 4]}[p["key"]]
        return b"Ed" + (A.keynum if p["id"] == "i" else J) + key
    datas = ["", "h6d", "p3:64", "p3:128", "p3:129", "p5:65536", "p5:65537", "p7:200000"]
    rep = Scripts("rep", 400, need=NEED, profiles=("dev", "release"))
    for n, b in enumerate(behs):
        s = rep.get()
        sk = skbytes(K[b["sk"]["seed"]], K[b["sk"]["copy"]], A.keynum)
        if b["sk"]["seal"] == "sealed":
            sk = sk[:2] + b"Sc" + sk[4:54] + ref.xor(sk[54:], ref.sha512(b"x") + ref.sha512(b"y"))
        elif b["sk"]["seal"] == "damaged":
            i = (0, 54 + n % 8, 62 + n % 64, 126 + n % 32)[n % 4]
            sk = sk[:i] + bytes([sk[i] ^ (1 << n % 8)]) + sk[i + 1:]
        s.op("sk_load", carrier="bytes", in_=sk, to="k")
        haspk = b["pk"]["key"] != "none"
        if haspk:
            load_pk(s, "p", pkbytes(b["pk"], n), ("bytes", "b64", "box")[n % 3])
        tc = (b"t", b"", "\u00e9".encode())[n % 3] if b["tc"] == "given" else None
        # a public key with the same key and another id is not said to match
        need = [] if haspk and b["pk"]["id"] == "j" else NEED
        s.op("sign", sk="k", pk="p" if haspk else None, data=datas[n % len(datas)], start=(0, 1, 5)[n % 3], tc=tc, uc=b"u" if n % 2 else None, reader=("e", "r1,e", "*r64,r1,r1,e")[n % 3] if b["fault"] and len(datas[n % len(datas)]) > 5 else ("e" if b["fault"] else None),
             to="g", need=need, meta={"model": b["ok"]} if need else {})
        if haspk:
            s.op("verify", pk="p", sig="g", data=datas[n % len(datas)], start=(0, 1, 5)[n % 3], need=need, **flags(0))
        for r in ("k", "p", "g"):
            s.op("drop", reg=r)
    # ---- every single bit of the key material, and of the rest of the public key
    bits = Scripts("bits", 500, need=NEED, profiles=("dev",))
    for kk in (A,) if q else (A, B, mkkey(ctx, "C")):
        for n, ((i, j), p) in enumerate(flips(kk.pk)):
            s = bits.get()
            s.op("sk_load", carrier="bytes", in_=kk.sk(), to="k")
            load_pk(s, "p", p, ("bytes", "b64", "box")[n % 3])
            s.op("sign", sk="k", pk="p", data=datas[n % 5], tc=b"t" if n % 2 else None, to="g", need=[] if i < 10 else NEED)
            s.op("verify", pk="p", sig="g", data=datas[n % 5], need=[], **flags(0))
            s.op("drop", reg="g")
    # ---- many pairs of keys, generated here and elsewhere
    many = Scripts("many", 400, need=NEED, profiles=("dev", "release"))
    ks = [mkkey(ctx, f"m{i}") for i in range(10 if q else 60)]
    ks += [mkkey(ctx, "same-id", keynum=ks[0].keynum), mkkey(ctx, "zero-id", keynum=bytes(8)), mkkey(ctx, "ff-id", keynum=b"\xff" * 8)]
    for a, x in enumerate(ks):
        s = many.get()
        s.op("sk_load", carrier="bytes", in_=x.sk(), to="k")
        for b_, y in enumerate(ks):
            load_pk(s, "p", y.pk)
            s.op("sign", sk="k", pk="p", data=f"p{a}:{b_ * 37}", tc=b"t", to="g", need=NEED if x is y or x.pub != y.pub else [])
            s.op("sign", sk="k", pk="p", data=f"p{a}:{b_ * 37}", to="g", need=NEED if x is y or x.pub != y.pub else [])
            s.op("drop", reg="g")
            # the id of the secret key, the key of another
            load_pk(s, "p", b"Ed" + x.keynum + y.pub)
            s.op("sign", sk="k", pk="p", data=f"p{a}:{b_}", tc=b"t", to="g")
            s.op("drop", reg="g")
    gn = Scripts("gen", 60, need=NEED, profiles=("release",))
    for i in range(12 if q else 200):
        s = gn.get()
        s.op("rng", mode=f"seed:{ctx.seed * 17 + i}")
        s.op("gen", kind="plain", pkto="p0", skto="k0")
        s.op("gen", kind="plain", pkto="p1", skto="k1")
        s.op("pk_from_sk", sk="k0", to="p2")
        for sk in ("k0", "k1"):
            for pk in ("p0", "p1", "p2"):
                s.op("sign", sk=sk, pk=pk, data=f"p1:{i * 11}", tc=b"t", to="g")
                s.op("verify", pk=pk, sig="g", data=f"p1:{i * 11}", **flags(0))
                s.op("drop", reg="g")
        if i % 4 == 0:
            s.op("gen", kind="enc", pw=b"w", pkto="p3", skto="k3")
            s.op("sk_store", sk="k3", carrier="box", comment=b"c", to="t")
            s.op("sk_load", carrier="box", inreg="t", pw=b"w", to="k4")
            for pk in ("p3", "p0"):
                s.op("sign", sk="k4", pk=pk, data="h6d", tc=b"t", to="g")
                s.op("drop", reg="g")
    # ---- giving the matching public key changes nothing else
    same = Scripts("same", 400, need=NEED, profiles=("dev", "release"))
    n = 0
    for d in [f"p2:{l}" for l in (LENS_Q if q else LENS_T)]:
        for tc in [None] + [c.encode() for c in (COMMENTS[:6] if q else COMMENTS)]:
            s = same.get()
            uc = (None, b"", b" u ", "\u00e9".encode())[n % 4]
            st = (0, 0, 7, 64)[n % 4]
            rd = (None, "*r1000", "r1,r63,*r65536")[n % 3]
            s.op("sk_load", carrier="bytes", in_=A.sk(), to="k")
            load_pk(s, "p", A.pk, ("bytes", "b64", "box", "file")[n % 4])
            for pk in (None, "p"):
                s.op("sign", sk="k", pk=pk, data=d, start=st, reader=rd, tc=tc, uc=uc, to="g", grp=f"same{n}", gp="C17")
                s.op("verify", pk="p", sig="g", data=d, start=st, **flags(0))
                s.op("sig_store", sig="g", carrier="string", to="t")
                s.op("sig_load", carrier="string", inreg="t", to="g2")
                s.op("verify", pk="p", sig="g2", data=d, start=st, **flags(2))
            n += 1
    # ---- the same, in any order: a public key given earlier does not stay
    mix = Scripts("mix", 300, need=NEED, profiles=("dev",))
    for i in range(20 if q else 300):
        s = mix.get()
        for nm, x in (("kA", A), ("kB", B)):
            s.op("sk_load", carrier="bytes", in_=x.sk(), to=nm)
            load_pk(s, "p" + nm[1], x.pk)
        for _ in range(12):
            k, p = ctx.rng.choice("AB"), ctx.rng.choice(["pA", "pB", None])
            s.op("sign", sk="k" + k, pk=p, data=f"p1:{ctx.rng.randrange(300)}", tc=b"t", to="g", grp=f"mix{k}{p}", gp="C17")
    return standard(ctx, rep, bits, many, gn, same, mix,
                    note="Pair.tla model checked (unsafe ways to match shown to fail) and every scenario replayed, secret keys with a foreign public half included; every bit of the public key; TLC verifies each returned signature under the key that was given")
