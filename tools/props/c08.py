"""C08: keys survive every serialization."""
import ref
from . import keyslife
from .common import *

NEED = ["C08"]
PKC = ("bytes", "b64", "box", "boxinto", "boxbytes")
PKL = {"bytes": ("bytes",), "b64": ("b64",), "box": ("box", "boxfrom", "file", "pkfrom", "boxrt"), "boxinto": ("box", "file"), "boxbytes": ("boxfrom", "file")}


def pk_cycle(s, reg):
    for c in PKC:
        s.op("pk_store", pk=reg, carrier=c, to="o")
        for l in PKL[c]:
            s.op("pk_load", carrier=l, inreg="o", to="q")
            s.op("pk_eq", pk=reg, other="q")
            s.op("pk_store", pk="q", carrier=c, to="o2")


def sk_cycle(s, reg, comment, pw=None, orig=None, kf=None):
    """pw: None for a plain key; the key in reg is what gets stored"""
    s.op("sk_store", sk=reg, carrier="bytes", to="o")
    s.op("sk_load", carrier="bytes", inreg="o", to="q")
    s.op("sk_eq", sk=reg, other="q")
    for c in ("box", "boxinto", "boxbytes"):
        s.op("sk_store", sk=reg, carrier=c, to="o", comment=comment)
        for l in (("ubox", "uboxfrom") if pw is None else ("box", "boxfrom", "file")):
            m = {"mustopen": True}
            if orig:
                m["orig"] = orig
            if kf:
                m["kf"] = kf
            s.op("sk_load", carrier=l, inreg="o", pw=pw, to="q", meta=m)
            if pw is None:
                s.op("sk_eq", sk=reg, other="q")
                s.op("sk_store", sk="q", carrier=c, to="o2", comment=comment)
                s.op("sk_load", carrier=l, inreg="o2", pw=pw, to="q2", meta=m)
            s.op("pk_from_sk", sk="q", to="qp")
            s.op("drop", reg="q")


def check(ctx):
    ctx.prepare()
    behs = keyslife.model(ctx, 0 if ctx.quick else 1)
    groups = [keyslife.replay(ctx, behs, NEED)]
    out = Scripts("cycle", 500, need=NEED, profiles=("dev", "release"))
    cs = COMMENTS + [None]
    keys = [mkkey(ctx, f"c8-{i}") for i in range(4 if ctx.quick else 60)]
    keys += [ref.Key(bytes(32), bytes(8)), ref.Key(b"\xff" * 32, b"\xff" * 8), ref.Key(bytes(32), b"\1" + bytes(7)), ref.Key(bytes(32), bytes(7) + b"\1"), ref.Key(bytes(31) + b"\1", bytes(range(8))),
             ref.Key(bytes(32), b"\x0a\x0d\x20\x09\0\0\0\x0a")]
    for i, k in enumerate(keys):
        s = out.get()
        for l, b in (("bytes", k.pk), ("b64", ref.b64(k.pk)), ("box", k.pk_text()), ("file", k.pk_text(b"any comment")), ("boxfrom", k.pk_text(b""))):
            s.op("pk_load", carrier=l, in_=b, to="p")
            pk_cycle(s, "p")
        s.op("sk_load", carrier="ubox", in_=k.sk_text(salt=ref.sha512(b"%d" % i)[:32], ops=i * 77777, mem=2**40 + i), to="k")
        s.op("pk_from_sk", sk="k", to="pp")
        s.op("pk_eq", pk="pp", other="p")
        s.op("pk_store", pk="pp", carrier="box", to="o")
        c = cs[(i * 5) % len(cs)]
        sk_cycle(s, "k", None if c is None else c.encode())
    # comments of the box
    for i, c in enumerate(cs):
        s = out.get()
        k = keys[i % len(keys)]
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="k")
        sk_cycle(s, "k", None if c is None else c.encode())
        e = k.sk(pw=b"pw", salt=ref.sha512(b"%d" % i)[:32], **LOW)
        s.op("sk_load", carrier="bytes", in_=e, to="e")
        sk_cycle(s, "e", None if c is None else c.encode(), pw=b"pw", orig=(k.keynum + k.sk64).hex())
        if c is not None and len(c) < 300:
            s.op("pk_load", carrier="box", in_=ref.pk_text(k.pk, c.encode()), to="p")
            pk_cycle(s, "p")
    long = Scripts("long", 100, need=NEED, profiles=("release",))
    for i, c in enumerate(LONG):
        s = long.get()
        k = keys[i % len(keys)]
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="k")
        sk_cycle(s, "k", c.encode())
        s.op("sk_load", carrier="bytes", in_=k.sk(pw=b"pw", salt=ref.sha512(b"%d" % i)[:32], **LOW), to="e")
        sk_cycle(s, "e", c.encode(), pw=b"pw", orig=(k.keynum + k.sk64).hex())
        for l in ("box", "boxfrom", "file"):
            s.op("pk_load", carrier=l, in_=ref.pk_text(k.pk, c.encode()), to="p")
            s.op("pk_store", pk="p", carrier="box", to="o")
    # encryption parameters of every size (never used: the key stays sealed)
    par = Scripts("params", 500, need=NEED)
    for i, (ops, mem) in enumerate([(0, 0), (1, 2**64 - 1), (2**64 - 1, 1), (0x0102030405060708, 0x1112131415161718), (DEFOPS, DEFMEM), (2**32, 2**31), (2**63, 2**33)]):
        k = keys[i % 4]
        b = b"EdScB2" + ref.sha512(b"par%d" % i)[:32] + ops.to_bytes(8, "little") + mem.to_bytes(8, "little") + k.core()
        for lab in (b"Sc", b"\0\0", b"xy"):
            for alg in (b"Ed", b"ED"):
                for chk in (b"B2", b"\0\0"):
                    s = par.get()
                    s.op("sk_load", carrier="bytes", in_=alg + lab + chk + b[6:], to="k")
                    s.op("sk_store", sk="k", carrier="bytes", to="o")
                    s.op("sk_load", carrier="bytes", inreg="o", to="q")
                    s.op("sk_eq", sk="k", other="q")
                    s.op("sk_store", sk="k", carrier="box", to="o", comment=b"c")
                    s.op("pk_from_sk", sk="k", to="pp")
    # generated keys
    gen = Scripts("gen", 500, need=NEED, profiles=("dev", "release"))
    for i in range(6 if ctx.quick else 60):
        s = gen.get()
        s.op("rng", mode=f"seed:{ctx.seed * 100 + i}" if i % 2 else "real")
        s.op("gen", kind="plain", pkto="p", skto="k")
        s.op("pk_from_sk", sk="k", to="pp")
        s.op("pk_eq", pk="p", other="pp")
        pk_cycle(s, "p")
        sk_cycle(s, "k", b"c%d" % i)
        s.op("genw", kind="plain", pkto="p", skto="k", pkwto="pt", skwto="st")
        s.op("pk_load", carrier="bytes", inreg="pt", to="p2")
        s.op("pk_eq", pk="p", other="p2")
        s.op("sk_load", carrier="bytes", inreg="st", to="k2")
        s.op("sk_eq", sk="k", other="k2")
    enc = Scripts("genenc", 500, need=NEED, profiles=("release",))
    for i, pw in enumerate([b"pw", b"", b"y" * 80][:2 if ctx.quick else 3]):
        s = enc.get()
        s.op("rng", mode=f"seed:{i + 31}")
        s.op("gen", kind="enc", pw=pw, pkto="p", skto="k")
        s.op("sk_store", sk="k", carrier="bytes", to="o")
        s.op("sk_load", carrier="bytes", inreg="o", to="q")
        s.op("sk_eq", sk="k", other="q")
        for j, c in enumerate(("box", "boxinto", "boxbytes")):
            s.op("sk_store", sk="q", carrier=c, to="o", comment=b"c")
            s.op("sk_load", carrier=("box", "boxfrom", "file")[j], inreg="o", pw=pw, to="u", meta={"mustopen": True})
            s.op("pk_from_sk", sk="u", to="pp")
            s.op("pk_eq", pk="p", other="pp")
            s.op("sk_store", sk="u", carrier="bytes", to="ub")
            s.op("sk_load", carrier="bytes", inreg="ub", to="u2")
            s.op("sk_eq", sk="u", other="u2")
        s.op("genw", kind="enc", pw=pw, pkto="p", skto="k", pkwto="pt", skwto="st", comment=b"written" if i else None)
        s.op("pk_load", carrier="box", inreg="pt", to="p2")
        s.op("pk_eq", pk="p", other="p2")
        s.op("sk_load", carrier="box", inreg="st", pw=pw, to="u", meta={"mustopen": True})
        s.op("pk_from_sk", sk="u", to="pp")
        s.op("pk_eq", pk="p", other="pp")
    # a clone is the same key, in whatever state the key is
    cl = Scripts("clone", 500, need=NEED, profiles=("dev", "release"))
    for i, k in enumerate(keys[:3 if ctx.quick else 30]):
        s = cl.get()
        e = k.sk(pw=b"pw", salt=ref.sha512(b"cl%d" % i)[:32], **LOW)
        s.op("pk_load", carrier="box", in_=k.pk_text(), to="p")
        s.op("clone", reg="p", to="pc")
        s.op("drop", reg="p")
        pk_cycle(s, "pc")
        s.op("sk_load", carrier="bytes", in_=e, to="e")                                             # sealed
        s.op("clone", reg="e", to="ec")
        s.op("drop", reg="e")
        sk_cycle(s, "ec", b"of a clone", pw=b"pw", orig=(k.keynum + k.sk64).hex())
        s.op("sk_load", carrier="box", in_=ref.sk_text(e, b"c"), pw=b"pw", to="o")                  # opened
        s.op("clone", reg="o", to="oc")
        s.op("sk_eq", sk="o", other="oc")
        s.op("pk_from_sk", sk="oc", to="pp")
        s.op("pk_eq", pk="pp", other="pc")
        s.op("sk_store", sk="oc", carrier="bytes", to="ob")
        s.op("sk_load", carrier="ubox", in_=k.sk_text(), to="u")                                    # never sealed
        s.op("clone", reg="u", to="uc")
        s.op("drop", reg="u")
        sk_cycle(s, "uc", b"of a clone")
        s.op("gen", kind="plain", pkto="gp", skto="gk")
        for what, n in (("pk", "gp"), ("sk", "gk")):
            s.op("clone", reg=n, to=n + "c", **({"pk": "gp"} if what == "sk" else {}))
        pk_cycle(s, "gpc")
        sk_cycle(s, "gkc", b"of a clone")
        # whatever its bytes say
        for b in (e[:2] + b"\0\0" + e[4:], e[:4] + b"xy" + e[6:], b"ED" + e[2:], e[:6] + bytes(48) + e[54:], e[:-32] + bytes(32), bytes(158)):
            s.op("sk_load", carrier="bytes", in_=b, to="x")
            s.op("clone", reg="x", to="xc")
            s.op("sk_store", sk="xc", carrier="bytes", to="xb")
    # the known finding D8: a key opened with its password, put back into a box
    d8 = Scripts("d8", 100, need=NEED)
    s = d8.get()
    k = keys[0]
    s.op("sk_load", carrier="box", in_=k.sk_text(pw=b"pw", **LOW), pw=b"pw", to="k")
    s.op("sk_store", sk="k", carrier="box", to="o", comment=b"c")
    s.op("sk_load", carrier="box", inreg="o", pw=b"pw", to="q", meta={"mustopen": True, "kf": "D8"})
    # equality
    eq = Scripts("eq", 400, need=NEED)
    a, b = mkkey(ctx, "e1"), mkkey(ctx, "e2")
    s = eq.get()
    load_pk(s, "a", a.pk)
    s.op("sk_load", carrier="bytes", in_=a.sk(), to="ka")
    for pos, x in flips(a.pk, (0, 7)):
        load_pk(s, "b", x)
        s.op("pk_eq", pk="a", other="b")
    for pos, x in flips(a.sk(), (pos[0] % 8,)):
        s.op("sk_load", carrier="bytes", in_=x, to="kb")
        s.op("sk_eq", sk="ka", other="kb")
    groups += [out, long, par, gen, enc, cl, d8, eq]
    return standard(ctx, *groups, note="Keys.tla model checked and replayed; every carrier, stored and read back; judged by TLC against Judge.tla")
