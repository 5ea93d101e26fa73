"""C09: encrypted, unencrypted and damaged secret keys are never confused."""
import random

import ref
from . import keyslife
from .common import *

NEED = ["C09"]


def check(ctx):
    ctx.prepare()
    behs = keyslife.model(ctx, 1 if ctx.quick else 2)
    groups = [keyslife.replay(ctx, behs, NEED)]
    k = mkkey(ctx, "k1")
    pw = b"pw"
    salt = ref.sha512(b"lab")[:32]
    plain, enc = k.sk(salt=salt), k.sk(pw=pw, salt=salt, **LOW)
    encs = k.sk(pw=b"", salt=salt, **LOW)
    labels = {bytes([a ^ (1 << i), b]) for a, b in (b"Sc", b"\0\0") for i in range(8)} | {bytes([a, b ^ (1 << i)]) for a, b in (b"Sc", b"\0\0") for i in range(8)}
    labels |= {b"Sc", b"\0\0", b"sc", b"SC", b"cS", b"S\0", b"\0c", b"B2", b"Ed", b"ED", b"\xff\xff", b"  ", b"00", b"No", b"no", b"Ar", b"\0\1", b"A2", b"Pb"}
    rnd = random.Random(ctx.seed)
    labels |= {bytes([rnd.randrange(256), rnd.randrange(256)]) for _ in range(30 if ctx.quick else 3000)}
    if not ctx.quick:
        labels |= {bytes([x, y]) for x in range(256) for y in (0, 99)} | {bytes([y, x]) for x in range(256) for y in (0, 83)}
    pre = lambda s: load_pk(s, "kp", k.pk)
    lab = Scripts("labels", 700, need=NEED, profiles=("dev", "release"), pre=pre)
    for n, l in enumerate(sorted(labels)):
        for b in (plain, enc, encs):
            s = lab.get()
            t = ref.sk_text(b[:2] + l + b[4:])
            s.op("let", in_=t, to="t")
            s.op("sk_load", carrier=("ubox", "uboxfrom")[n % 2], inreg="t", to="m")
            for w in (pw, b"", b"x"):
                s.op("sk_load", carrier=("box", "boxfrom", "file")[n % 3], inreg="t", pw=w, to="m")
            s.op("sk_load", carrier="bytes", in_=b[:2] + l + b[4:], to="r")
            signs(s, "r", n)
            s.op("sk_store", sk="r", carrier="box", comment=b"c", to="t2")
            s.op("sk_load", carrier="ubox", inreg="t2", to="m")
            s.op("sk_load", carrier="box", inreg="t2", pw=pw, to="m")
            s.op("drop", reg="r")
            s.op("drop", reg="t2")
    # checksums: every byte of the core, of the algorithm tag
    dm = Scripts("damage", 700, need=NEED, profiles=("dev", "release"), pre=pre)
    fields = list(range(0, 2)) + list(range(54, 158))
    for n, i in enumerate(fields):
        for x in ((1 << (n % 8)), 0xff) if ctx.quick else [1 << j for j in range(8)] + [0xff]:
            a = plain[:i] + bytes([plain[i] ^ x]) + plain[i + 1:]
            s = dm.get()
            s.op("sk_load", carrier=("ubox", "uboxfrom")[n % 2], in_=ref.sk_text(a), to="m")
            signs(s, "m", n)
            s.op("sk_load", carrier="bytes", in_=a, to="r")
            signs(s, "r", n)
            s.op("pk_from_sk", sk="r", to="p")
            e = enc[:i] + bytes([enc[i] ^ x]) + enc[i + 1:]
            s.op("sk_load", carrier="box", in_=ref.sk_text(e), pw=pw, to="m2")
            signs(s, "m2", n)
            for rg in ("m", "m2", "r", "p"):
                s.op("drop", reg=rg)
    # two damaged fields at once, zeroed checksums, checksums of other things
    def with_chk(c, alg=b"Ed", label=b"\0\0"):
        return alg + label + b"B2" + salt + bytes(16) + k.keynum + k.sk64 + c
    for n, c in enumerate([bytes(32), b"\xff" * 32, ref.blake2b(k.keynum + k.sk64, 32), ref.blake2b(b"Ed" + k.sk64, 32), ref.blake2b(b"Ed" + k.sk64 + k.keynum, 32), ref.blake2b(k.sk64, 32),
                           ref.blake2b(b"Ed" + k.keynum + k.seed, 32), ref.blake2b(b"Ed" + k.keynum + k.sk64)[:32], ref.blake2b(b"ED" + k.keynum + k.sk64, 32), ref.blake2b(b"EdSc" + k.keynum + k.sk64, 32),
                           ref.blake2b(b"", 32), k.chk()[::-1], k.chk()[:31] + bytes([k.chk()[31] ^ 1]), bytes([k.chk()[0] ^ 1]) + k.chk()[1:], k.chk()[:16] + bytes(16), bytes(16) + k.chk()[16:], k.chk()]):
        for alg in (b"Ed", b"ED", b"ed"):
            s = dm.get()
            b = with_chk(c, alg)
            s.op("sk_load", carrier="ubox", in_=ref.sk_text(b), to="m")
            signs(s, "m", n)
            s.op("sk_load", carrier="bytes", in_=b, to="r")
            signs(s, "r", n)
            # sealed with the right mask, labelled as sealed
            core = k.keynum + k.sk64 + c
            e = alg + b"ScB2" + salt + bytes(10) + b'\x10' + bytes(5) + ref.xor(core, ref.scrypt(pw, salt, 0, 1 << 20))
            s.op("sk_load", carrier="box", in_=ref.sk_text(e), pw=pw, to="m2")
            signs(s, "m2", n)
            # in the clear but labelled as sealed; sealed but labelled as clear
            s.op("sk_load", carrier="box", in_=ref.sk_text(with_chk(c, alg, b"Sc")), pw=pw, to="m3")
            s.op("sk_load", carrier="ubox", in_=ref.sk_text(e[:2] + b"\0\0" + e[4:]), to="m3")
            s.op("sk_load", carrier="bytes", in_=e, to="r2")
            signs(s, "r2", n)
            for rg in ("m", "m2", "m3", "r", "r2"):
                s.op("drop", reg=rg)
    # keys just generated with a password are still sealed: they must not sign, whatever is done with them
    gn = Scripts("sealed", 200, need=NEED, profiles=("release",))
    for i, w in enumerate([b"pw", b"", "\u00e9".encode()]):
        s = gn.get()
        s.op("rng", mode=f"seed:{i + 9}")
        s.op("gen", kind="enc", pw=w, pkto="p", skto="k")
        s.op("sign", sk="k", data="h6d", to="g", need=["C02"])
        s.op("sign", sk="k", pk="p", data="h6d", to="g", need=["C02"])
        s.op("sign", sk="k", data="p1:1000", tc=b"tc", uc=b"uc", to="g", need=["C02"])
        s.op("sk_store", sk="k", carrier="bytes", to="b")
        s.op("sk_load", carrier="bytes", inreg="b", to="k2")
        s.op("sign", sk="k2", data="h6d", to="g", need=["C02"])
        s.op("sk_store", sk="k", carrier="box", to="t")
        s.op("sk_load", carrier="ubox", inreg="t", to="k3")
        s.op("sk_load", carrier="uboxfrom", inreg="t", to="k3")
        s.op("sk_load", carrier="box", inreg="t", pw=w, to="k4")
        s.op("sign", sk="k4", pk="p", data="h6d", to="g", need=["C02", "C09"])
        s.op("genw", kind="enc", pw=w, pkto="p", skto="k", pkwto="pt", skwto="st")
        s.op("sign", sk="k", data="h6d", to="g", need=["C02"])
        s.op("sk_load", carrier="uboxfrom", inreg="st", to="k3")
        # wrong password first, then the right one, then the plain family
        s.op("sk_load", carrier="box", inreg="st", pw=w + b"x", to="k5")
        s.op("sk_load", carrier="box", inreg="st", pw=w, to="k5")
        s.op("sk_load", carrier="ubox", inreg="st", to="k6")
        s.op("gen", kind="plain", pkto="q", skto="u")
        s.op("sk_store", sk="u", carrier="box", to="t")
        s.op("sk_load", carrier="box", inreg="t", pw=w, to="k7")
        s.op("sk_load", carrier="boxfrom", inreg="t", pw=b"", to="k7")
        s.op("sk_load", carrier="ubox", inreg="t", to="k8")
        s.op("sign", sk="k8", pk="q", data="h6d", to="g", need=["C02", "C09"])
    groups += [lab, dm, gn]
    return standard(ctx, *groups, note="Keys.tla model checked, its behaviours replayed; encryption labels, checksums and damaged fields enumerated; judged by TLC against Judge.tla")
