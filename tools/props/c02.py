"""C02: whatever an unlocked key signs verifies, directly and through every form."""
import random

import ref
from .c01 import extremes
from .common import *

NEED = ["C02"]


def roundtrip(s, sk, pks, d, tc, uc, n, full=True, start=None):
    """sign, then verify through every form of the signature"""
    s.op("sign", sk=sk, data=d, tc=tc, uc=uc, to="g", start=start)
    s.op("verify", pk=pks[n % len(pks)], sig="g", data=d, start=start, **flags(n))
    forms = ["string", "into", "from", "bytes", "bones"]
    for j, c in enumerate(forms if full else [forms[n % 5], forms[(n + 2) % 5]]):
        s.op("sig_store", sig="g", carrier=c, to="t")
        car = "bones" if c == "bones" else ("string", "file", "from")[(n + j) % 3]
        s.op("sig_load", carrier=car, inreg="t", to="g2")
        s.op("verify", pk=pks[(n + j) % len(pks)], sig="g2", data=d, start=start, **flags(n + j + 1))
        if c in ("string", "bytes"):
            # once more, from what was loaded
            s.op("sig_store", sig="g2", carrier=forms[(n + j) % 4], to="t2")
            s.op("sig_load", carrier="string", inreg="t2", to="g3")
            s.op("verify", pk=pks[(n + j) % len(pks)], sig="g3", data=d, start=start, **flags(n + j))
        if c == "bones":
            s.op("sig_store", sig="g2", carrier="bones", to="t2")
            s.op("sig_load", carrier="bones", inreg="t2", to="g3")
            s.op("verify", pk=pks[(n + j) % len(pks)], sig="g3", data=d, start=start, **flags(n + j))
    s.op("sig_bones", sig="g", to="b")
    s.op("verify", pk=pks[n % len(pks)], sig="b", data=d, start=start, **flags(n + 5))


def with_keys(ctx, s, n):
    """fills k (unlocked) and p0.. with the key of kind n; returns the names of the public keys"""
    kind = n % 6
    s.op("rng", mode=f"seed:{ctx.seed * 1000 + n}" if n % 7 else "real")
    if kind == 0:
        s.op("gen", kind="plain", pkto="p0", skto="k")
    elif kind == 1:
        s.op("gen", kind="plain", pkto="p0", skto="k0")
        s.op("sk_store", sk="k0", carrier=("box", "boxinto", "boxbytes")[n % 3], to="t", comment=b"my key")
        s.op("sk_load", carrier=("ubox", "uboxfrom")[n % 2], inreg="t", to="k")
    elif kind == 2:
        s.op("gen", kind="plain", pkto="p0", skto="k0")
        s.op("sk_store", sk="k0", carrier="bytes", to="t")
        s.op("sk_load", carrier="bytes", inreg="t", to="k")
    elif kind == 3:
        k = mkkey(ctx, f"c2-{n}")
        s.op("sk_load", carrier=("box", "boxfrom", "file")[n % 3], in_=k.sk_text(pw=b"pw%d" % n, salt=ref.sha512(b"%d" % n)[:32], **LOW), pw=b"pw%d" % n, to="k")
        load_pk(s, "p0", k.pk, ("bytes", "b64", "box", "boxfrom", "file")[n % 5])
    elif kind == 4:
        k = mkkey(ctx, f"c2-{n}")
        s.op("sk_load", carrier=("ubox", "uboxfrom")[n % 2], in_=k.sk_text(), to="k")
        load_pk(s, "p0", k.pk, ("bytes", "b64", "box", "boxfrom", "file")[n % 5])
    else:
        s.op("genw", kind="plain", pkto="p0", skto="k", pkwto="pw", skwto="sw")
        s.op("sk_load", carrier="bytes", inreg="sw", to="k")
    s.op("pk_from_sk", sk="k", to="p1")
    s.op("pk_store", pk="p0", carrier=("bytes", "b64", "box")[n % 3], to="pt")
    s.op("pk_load", carrier=("bytes", "b64", "box")[n % 3], inreg="pt", to="p2")
    return ["p0", "p1", "p2"]


def rand_comment(rnd, n):
    pool = list("abc xyz\t\u00e9\u4f60\U0001f600\u00a0\u2003\u0085\x0b\x00/:=+") + ["trusted comment: ", "\u2028"]
    return "".join(rnd.choice(pool) for _ in range(n))


def check(ctx):
    ctx.prepare()
    rnd = ctx.rng
    out = Scripts("rt", 500, need=NEED, profiles=("dev", "release"))
    n = 0
    # comments
    cs = COMMENTS + [rand_comment(rnd, rnd.randrange(1, 60)) for _ in range(20 if ctx.quick else 400)]
    for i, c in enumerate(cs):
        s = out.get()
        pks = with_keys(ctx, s, n)
        o = cs[(i * 7 + 3) % len(cs)]
        for tc, uc in ((c, o), (None, c), (c, None)) if ctx.quick else ((c, o), (o, c), (c, c), (None, c), (c, None), (None, None)):
            e = lambda x: None if x is None else x.encode()
            roundtrip(s, "k", pks, f"p{i}:{i * 3 % 200}", e(tc), e(uc), n, full=len(c) < 300)
            n += 1
    lc = Scripts("rt-long", 60, need=NEED, profiles=("release",))
    for i, c in enumerate(LONG):
        s = lc.get()
        pks = with_keys(ctx, s, n)
        for tc, uc in ((c, None), (None, c), (c, c)):
            roundtrip(s, "k", pks, "p1:100", tc and tc.encode(), uc and uc.encode(), n, full=False)
            n += 1
    # lengths
    rl = Scripts("rt-len", 500, need=NEED, profiles=("release",))
    lens = sorted(set(LENS_Q + list(range(0, 300, 7 if ctx.quick else 1)))) if ctx.quick else sorted(set(LENS_T + list(range(0, 600))))
    for l in lens:
        s = rl.get()
        pks = with_keys(ctx, s, n)
        roundtrip(s, "k", pks, f"p{l}:{l}", b"tc", None, n, full=l < 5000)
        n += 1
        if l in (1, 64, 4096):
            roundtrip(s, "k", pks, f"p{l}:{l}", None, None, n, full=False, start=l // 2)
    # special data
    sp = Scripts("rt-data", 500, need=NEED)
    for d in ("", "h00", "hff", "h0a", "h0d0a", "z0:64", "z255:64", "z0:1000", "z10:100", "h45440102", h(b"untrusted comment: x\n"), h(b"\xef\xbb\xbfabc"), "h1a", "p1:74+h00"):
        s = sp.get()
        pks = with_keys(ctx, s, n)
        roundtrip(s, "k", pks, d, b"tc", b"", n)
        n += 1
    # many keys, so that rare cases of the arithmetic are met
    mk = Scripts("rt-keys", 600, need=NEED, profiles=("release",))
    for j in range(150 if ctx.quick else 3000):
        s = mk.get()
        k = mkkey(ctx, f"many{j}")
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="k")
        load_pk(s, "p", k.pk)
        s.op("sign", sk="k", data=f"p{j}:{j % 70}", tc=b"%d" % j, to="g")
        s.op("verify", pk="p", sig="g", data=f"p{j}:{j % 70}", quiet=1, output=0, legacy=0)
    # special keys: seeds and ids at the extremes
    for j, (seed, kn) in enumerate([(bytes(32), bytes(8)), (b"\xff" * 32, b"\xff" * 8), (bytes(31) + b"\1", b"\1" + bytes(7)), (b"\x80" + bytes(31), bytes(7) + b"\x80")]):
        k = ref.Key(seed, kn)
        for how in range(3):
            s = mk.get()
            if how == 0:
                s.op("sk_load", carrier="bytes", in_=k.sk(), to="k")
            elif how == 1:
                s.op("sk_load", carrier="ubox", in_=k.sk_text(), to="k")
            else:
                s.op("sk_load", carrier="box", in_=k.sk_text(pw=b"", **LOW), pw=b"", to="k")
            load_pk(s, "p", k.pk, ("bytes", "b64", "box")[how])
            roundtrip(s, "k", ["p"], "p3:77", b"tc", b"uc", j)
    # default cost, password-protected, generated here
    en = Scripts("rt-enc", 500, need=NEED, profiles=("release",))
    for j, pw in enumerate([b"", b"password", "p\u00e4ss \u4f60".encode(), b"x" * 65][:3 if ctx.quick else 4]):
        s = en.get()
        s.op("rng", mode=f"seed:{j + 5}")
        s.op("gen", kind="enc", pw=pw, pkto="p0", skto="k0")
        s.op("sk_store", sk="k0", carrier=("box", "boxinto")[j % 2], to="t")
        s.op("sk_load", carrier=("box", "boxfrom", "file")[j % 3], inreg="t", pw=pw, to="k")
        s.op("pk_from_sk", sk="k", to="p1")
        roundtrip(s, "k", ["p0", "p1"], "p3:77", b"tc", b"uc", j)
        s.op("genw", kind="enc", pw=pw, pkto="q0", skto="k1", pkwto="pt", skwto="st", comment=b"a comment")
        s.op("sk_load", carrier="box", inreg="st", pw=pw, to="k2")
        s.op("pk_load", carrier="box", inreg="pt", to="q1")
        roundtrip(s, "k2", ["q0", "q1"], "p3:77", None, None, j)
    models(ctx)
    return standard(ctx, huge(ctx, foreign=False, need=NEED), out, rl, lc, sp, mk, en, extremes(ctx, NEED), note="sign/store/load/verify round trips over key kinds, forms, comments, lengths; outcomes judged by TLC against Judge.tla; "
                    "HonestAccepted checked on Forge.tla")


def models(ctx):
    ctx.model("Forge", constants=f" MaxSign = {1 if ctx.quick else 2}\n Emit = 0", invariants=["HonestAccepted"], workers=4 if ctx.quick else 8, timeout=3000)
