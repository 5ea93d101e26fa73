"""C10: untrusted text never crashes the program."""
import ref
from . import texts, c01
from .common import *

NEED = ["C10"]


def use_sig(s, g, deep=True):
    s.op("sig_store", sig=g, carrier="bones", to="o")
    s.op("sig_store", sig=g, carrier="string", to="o")
    s.op("sig_bones", sig=g, to="g2")
    for d in ("h6d", "h")[:2 if deep else 1]:
        for n in (0, 2, 4, 7):
            s.op("verify", pk="P", sig=g, data=d, **flags(n))
    s.op("verify", pk="P", sig="g2", data="h6d", **flags(2))
    s.op("drop", reg="g2")
    s.op("drop", reg=g)


def use_pk(s, p):
    for c in ("bytes", "b64", "box", "boxinto", "boxbytes"):
        s.op("pk_store", pk=p, carrier=c, to="o")
    s.op("verify", pk=p, sig="G", data="h6d", **flags(0))
    s.op("verify", pk=p, sig="GL", data="h6d", **flags(7))
    s.op("verify", pk=p, sig="GB", data="h6d", **flags(2))
    s.op("sign", sk="K", pk=p, data="h6d", tc=b"t", to="g", need=[])
    s.op("pk_eq", pk=p, other="P")
    s.op("drop", reg=p)


def use_sk(s, k, pw=None):
    for c in ("bytes", "box", "boxinto", "boxbytes"):
        s.op("sk_store", sk=k, carrier=c, comment=b"c" if c == "box" else None, to="o")
    s.op("pk_from_sk", sk=k, to="pp")
    s.op("sign", sk=k, data="h6d", tc=b"t", to="g", need=[])
    s.op("sign", sk=k, pk="pp", data="h6d", to="g", need=[])
    s.op("sk_eq", sk=k, other="K")
    s.op("drop", reg=k)


def mutate(rng, t, n):
    t = bytearray(t)
    for _ in range(n):
        c = rng.randrange(9)
        i = rng.randrange(len(t) + 1)
        if c == 0 and t:
            t[i % len(t)] ^= 1 << rng.randrange(8)
        elif c == 1:
            t[i:i] = rng.randbytes(rng.randrange(1, 4))
        elif c == 2:
            del t[i:i + rng.randrange(1, 30)]
        elif c == 3:
            del t[i:]
        elif c == 4:
            t[i:i] = rng.choice([b"\n", b"\r\n", b"\r", b" ", b"=", b"\0", "\u00a0".encode(), "\U0010ffff".encode(), b"untrusted comment: ", b"trusted comment: ", b"\n\n\n"])
        elif c == 5 and t:
            t[i % len(t)] = rng.randrange(256)
        elif c == 6:
            j = rng.randrange(len(t) + 1)
            t[i:i] = t[min(i, j):max(i, j)][:300]
        elif c == 7 and t:
            l = bytes(t).split(b"\n")
            rng.shuffle(l)
            t[:] = b"\n".join(l)
        else:
            t[i:i] = ref.b64(rng.randbytes(rng.randrange(120)))
    return bytes(t)


def utf8(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


def check(ctx):
    ctx.prepare()
    q = ctx.quick
    rng = ctx.rng
    k = mkkey(ctx, "c10")
    m, ml = refmade(k, b"m", tc=b"t"), refmade(k, b"m", tc=b"t", legacy=True)
    sealed = k.sk(pw=b"pw", salt=ref.sha512(b"c10")[:32], **LOW)

    def pre(s):
        load_pk(s, "P", k.pk)
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="K")
        load_sig(s, "G", m.bones, m.tc, m.gsig)
        load_sig(s, "GL", ml.bones, ml.tc, ml.gsig)
        load_sig(s, "GB", m.bones)
    both = ("dev", "release")
    groups = []
    # texts of the grammar
    for kind in ("sig", "pk", "sk"):
        lex = texts.Lex(ctx, kind)
        lex.t["X"] = lex.t["X"] + [ref.b64(sealed[:38] + o.to_bytes(8, "little") + me.to_bytes(8, "little") + sealed[54:]) for o, me in
                                   ((2**64 - 1, 2**64 - 1), (0, 0), (2**25 + 1, 0), (0, 2**40), (1 << 63, 1), (32768, 2**31))]
        behs = texts.behaviours(ctx, kind, 2)
        out = Scripts(f"text-{kind}", 500, need=NEED, profiles=both, pre=pre)
        for n, b in enumerate(texts.select(ctx, behs, 1 if q else 10, 900 if q else 12000)):
            t = lex.make(rng, b["text"])
            s = out.get()
            if kind == "sig":
                s.op("sig_load", carrier=("string", "file")[n % 2], in_=t, to="g")
                if b["ok"]:
                    use_sig(s, "g", False)
            elif kind == "pk":
                s.op("pk_load", carrier=("box", "boxfrom", "file", "boxrt")[n % 4], in_=t, to="p")
                if b["ok"]:
                    use_pk(s, "p")
            else:
                s.op("sk_load", carrier=("ubox", "uboxfrom")[n % 2], in_=t, to="k")
                s.op("sk_load", carrier=("box", "boxfrom", "file")[n % 3], in_=t, pw=b"pw" if n % 2 else b"", to="k2", need=[])
                if b["ok"]:
                    use_sk(s, "k")
                    use_sk(s, "k2")
        groups.append(out)
    # wrongly sized fields, and what they decode to
    size = Scripts("size", 400, need=NEED, profiles=both, pre=pre)
    for n in list(range(0, 200)) + [255, 256, 257, 1000, 5000] + ([] if q else [65536, 200000]):
        s = size.get()
        fill = (rng.randbytes(n), (m.bones * (n // 74 + 1))[:n], bytes(n))[n % 3]
        s.op("sig_load", carrier="string", in_=ref.sig_text(fill, b"t", m.gsig), to="g")
        use_sig(s, "g", False)
        s.op("sig_load", carrier="string", in_=ref.sig_text(m.bones, b"t", (m.gsig * (n // 64 + 1))[:n]), to="g")
        use_sig(s, "g", False)
        s.op("sig_load", carrier="bones", in_=(m.bones * (n // 74 + 1))[:n], to="g")
        s.op("verify", pk="P", sig="g", data="h6d", **flags(n % 8))
        s.op("sig_bones", sig="g", to="g2")
        pkb = (k.pk * (n // 42 + 1))[:n]
        for c, v in (("bytes", pkb), ("b64", ref.b64(pkb)), ("box", ref.pk_text(pkb + bytes(42))[:30] + b"\n" + ref.b64(pkb))):
            s.op("pk_load", carrier=c, in_=v, to="p")
        use_pk(s, "p")
        skb = (k.sk() + k.sk())[:n] + bytes(max(0, n - 316))
        for c, v in (("bytes", skb), ("ubox", ref.sk_text(skb)), ("box", ref.sk_text(sealed[:n] + bytes(max(0, n - 158))))):
            s.op("sk_load", carrier=c, in_=v, pw=b"pw" if c == "box" else None, to="k", need=[])
        use_sk(s, "k")
        # strings of n characters that are not ASCII, where lengths are counted
        u = ("é" * n).encode()
        s.op("pk_load", carrier="b64", in_=u, to="p")
        s.op("pk_load", carrier="b64", in_=b" " * (n // 2) + ref.b64(k.pk)[:n] + b" " * n, to="p")
        s.op("pk_load", carrier="box", in_=b"x\n" + u[:56 - 56 % 2] + b"\n", to="p")
        s.op("pk_load", carrier="b64", in_=("A" * (56 - 2 * (n % 28)) + "é" * (n % 28)).encode(), to="p")
    # characters of several bytes anywhere in a text, which keep the number of its bytes
    chars = Scripts("chars", 500, need=NEED, profiles=("dev",), pre=pre)
    wide = ("\u00e9".encode(), "\u20ac".encode(), "\U0001f511".encode())
    forms = [("sig", ("string",), ref.sig_text(m.bones, b"t", m.gsig, b"u")), ("pk", ("b64",), ref.b64(k.pk)), ("pk", ("box",), k.pk_text()), ("sk", ("ubox",), k.sk_text()), ("sk", ("box",), ref.sk_text(sealed))]
    for kind, carriers, t in forms:
        for i in range(len(t) - 1):
            near = min(abs(i - j) for j in [0, len(t)] + [j for j in range(len(t)) if t[j] == 10])
            for w in wide:
                if t[i:i + len(w)].count(10) or i + len(w) > len(t) or q and near > 24 and (i + len(w)) % 3:
                    continue
                s = chars.get()
                for c in carriers:
                    s.op(kind + "_load", carrier=c, in_=t[:i] + w + t[i + len(w):], pw=b"pw" if kind == "sk" and c == "box" else None, to="x", need=[])
                if kind == "sig":
                    s.op("verify", pk="P", sig="x", data="h6d", **flags(0))
                    s.op("sig_store", sig="x", carrier="string", to="o")
                s.op("drop", reg="x")
    # random changes
    base = [("sig", ref.sig_text(m.bones, b"t", m.gsig, b"u")), ("sig", ref.sig_text(ml.bones, "é\u2028".encode(), ml.gsig, b"", b"\r\n")), ("pk", k.pk_text()), ("sk", k.sk_text()), ("sk", ref.sk_text(sealed)),
            ("pk", b""), ("sig", b"untrusted comment: \n\ntrusted comment: \n\n"), ("sk", b"\n\n")]
    fuzz = Scripts("fuzz", 500, need=NEED, profiles=both, pre=pre)
    for n in range(1200 if q else 20000):
        kind, t = base[n % len(base)]
        t = mutate(rng, t, rng.choice([1, 1, 2, 3, 8]))
        s = fuzz.get()
        ok = utf8(t)
        if kind == "sig":
            s.op("sig_load", carrier="file" if not ok or n % 3 == 0 else "string", in_=t, to="g", need=[])
            use_sig(s, "g", False)
        elif kind == "pk":
            s.op("pk_load", carrier="file" if not ok or n % 3 == 0 else ("box", "boxfrom", "b64")[n % 3], in_=t, to="p", need=[])
            use_pk(s, "p")
        else:
            if ok:
                s.op("sk_load", carrier=("ubox", "uboxfrom")[n % 2], in_=t, to="k", need=[])
                use_sk(s, "k")
            # a key that still asks for affordable work, or for too much
            s.op("sk_load", carrier="file" if not ok else ("box", "boxfrom", "file")[n % 3], in_=t, pw=b"pw", to="k", need=[])
            s.op("drop", reg="k")
    raw = Scripts("raw", 500, need=NEED, profiles=both, pre=pre)
    for n in range(150 if q else 3000):
        b = rng.randbytes(rng.choice([0, 1, 2, 41, 42, 43, 73, 74, 75, 157, 158, 159, 300]))
        if n % 2 and len(b) > 2:
            b = rng.choice([b"Ed", b"ED"]) + b[2:]
        s = raw.get()
        s.op("sig_load", carrier="bones", in_=b, to="g", need=[])
        use_sig(s, "g", False)
        s.op("pk_load", carrier="bytes", in_=b, to="p", need=[])
        use_pk(s, "p")
        s.op("sk_load", carrier="bytes", in_=b, to="k", need=[])
        use_sk(s, "k")
        for c in ("file",):
            s.op("sig_load", carrier=c, in_=b, to="g", need=[])
            s.op("pk_load", carrier=c, in_=b, to="p", need=[])
            s.op("sk_load", carrier=c, in_=b, pw=b"", to="k", need=[])
    # keys and signatures that are not what they should be
    bad = Scripts("bad", 400, need=NEED, profiles=both, pre=pre)
    pts = [ref.enc(ref.O), bytes(32), b"\xff" * 32, NEUTRAL, NEUTRAL_NEG, NEUTRAL_NC, NEUTRAL_NCN, (ref.P - 1).to_bytes(32, "little"), ref.P.to_bytes(32, "little"), b"\2" + bytes(31), b"\xec" + b"\xff" * 30 + b"\x7f", b"\xed" + b"\xff" * 30 + b"\xff"]
    pts += [rng.randbytes(32) for _ in range(10 if q else 200)]
    scal = [0, 1, ref.L - 1, ref.L, ref.L + 1, 2 * ref.L, 2**252, 2**253 - 1, 2**255, 2**256 - 1]
    for i, p in enumerate(pts):
        for j, sc in enumerate(scal):
            s = bad.get()
            s.op("pk_load", carrier="bytes", in_=b"Ed" + k.keynum + p, to="p")
            R = pts[(i + j) % len(pts)]
            sg = R + sc.to_bytes(32, "little")
            al = (b"ED", b"Ed")[(i + j) % 2]
            load_sig(s, "g", al + k.keynum + sg, b"t", sg)
            s.op("verify", pk="p", sig="g", data="h6d", **flags(j % 8))
            s.op("verify", pk="p", sig="g", data="h6d", **flags(7))
            load_sig(s, "g", al + k.keynum + sg)
            s.op("verify", pk="p", sig="g", data="h", **flags(6))
            s.op("verify", pk="P", sig="g", data="h", **flags(6))
        s.op("sign", sk="K", pk="p", data="h6d", to="g", need=[])
        s.op("sk_load", carrier="bytes", in_=b"Ed\0\0B2" + bytes(48) + k.keynum + k.seed + p + ref.blake2b(b"Ed" + k.keynum + k.seed + p, 32), to="k")
        use_sk(s, "k")
    # excessive work
    kdf = Scripts("kdf", 60, need=NEED, profiles=both, cpu=60)
    lim = [0, 1, 2**25, 2**25 + 1, 2**30, 2**30 + 1, 2**31, 2**32, 2**33 + 5, 2**40, 2**62, 2**63, 2**64 - 1]
    for o in lim:
        for me in lim:
            if o <= 2**25 and me <= 2**30 and not (o <= 1 and me <= 1 or o > 1 and me == 2**30 and o == 1):
                continue        # affordable, or refused for another reason: C16
            s = kdf.get()
            b = sealed[:38] + o.to_bytes(8, "little") + me.to_bytes(8, "little") + sealed[54:]
            s.op("sk_load", carrier=("box", "boxfrom", "file")[(o + me) % 3], in_=ref.sk_text(b), pw=b"pw", to="k", need=[])
            s.op("sk_load", carrier="bytes", in_=b, to="k")
            s.op("sk_store", sk="k", carrier="box", comment=b"c", to="o")
            s.op("sk_load", carrier="box", inreg="o", pw=b"", to="k2", need=[])
    # files that cannot be read
    fil = Scripts("files", 100, need=[], profiles=both)
    s = fil.get()
    for c in ("missing", "dir"):
        s.op("pk_load", carrier=c, in_=b"", to="p")
        s.op("sk_load", carrier=c, in_=b"", pw=b"", to="k")
        s.op("sig_load", carrier=c, in_=b"", to="g")
    # size alone
    big = Scripts("big", 8, need=NEED, profiles=("release",), pre=pre)
    for n in (100000,) if q else (100000, 1000000):
        for t in (b"A" * n, b"\n" * n, b"untrusted comment: " + b"u" * n + b"\n" + ref.b64(m.bones) + b"\ntrusted comment: " + b"t" * n + b"\n" + ref.b64(m.gsig) + b"\n",
                  b"untrusted comment: \n" + b"A" * n + b"\ntrusted comment: \n" + b"A" * n + b"\n", b"\r" * n, b" " * n):
            s = big.get()
            s.op("sig_load", carrier="string", in_=t, to="g")
            s.op("verify", pk="P", sig="g", data="h6d", **flags(0))
            s.op("sig_store", sig="g", carrier="string", to="o")
            s.op("pk_load", carrier="box", in_=t, to="p")
            s.op("sk_load", carrier="ubox", in_=t, to="k")
            s.op("sk_load", carrier="box", in_=t, pw=b"", to="k", need=[])
    groups += [size, chars, fuzz, raw, bad, kdf, fil, big]
    return standard(ctx, *groups, note="Text.tla behaviours, wrongly sized fields, random changes and pathological keys, each followed by every operation on what was loaded, in checked and optimized builds; TLC judges each call")
