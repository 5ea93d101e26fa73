"""C05: only the right password opens an encrypted key, to the same key."""
import hashlib

import ref
from . import keyslife
from .common import *

NEED = ["C05"]


def near(pw):
    """passwords near pw"""
    out = [b"", b" ", b"\0", pw + b" ", b" " + pw, pw + b"\n", pw + b"\r\n", pw + b"\0", b"\0" + pw, pw[:-1], pw[1:], pw + pw, pw.swapcase(), pw[::-1], pw + b"a", pw.strip(), pw.rstrip(b"\n"),
           pw[:8], pw[:16], pw[:32], pw[:63], pw[:64], pw[:65], pw[:72], pw[:127], pw[:128], pw[:255], pw[:256], pw[:1000], pw[:1023], pw[:1024], pw[:65535], pw[:65536], pw[:-2], hashlib.sha256(pw).hexdigest().encode()]
    for i in {0, 1, 7, 8, 31, 32, 63, 64, 65, 71, 72, 127, 128, 255, 256, 1022, 1023, 1024, len(pw) - 1, len(pw) // 2}:
        if 0 <= i < len(pw) and pw[i] < 127:
            out.append(pw[:i] + bytes([pw[i] ^ 1]) + pw[i + 1:])
    res = []
    for x in out:
        try:
            x.decode()
        except UnicodeDecodeError:
            continue
        if x != pw and x not in res:
            res.append(x)
    return res


def check(ctx):
    ctx.prepare()
    behs = keyslife.model(ctx, 1 if ctx.quick else 2)
    if ctx.quick:
        behs = [b for i, b in enumerate(behs) if b[0] == "enc" or i % 3 == ctx.seed % 3]
    groups = [keyslife.replay(ctx, behs, NEED)]
    # passwords, at low cost
    pws = [b"", b"a", b"password", b" x ", b"\t", b"p\0q", b"trailing\n", "p\u00e4ss \u4f60\u597d".encode(), "\u00e9".encode(), "e\u0301".encode(), b"A" * 63, b"A" * 64, b"A" * 65, b"B" * 71, b"B" * 72, b"B" * 73,
           b"C" * 127, b"C" * 128, b"C" * 200, b"D" * 255, b"D" * 256, b"D" * 257, b"E" * 1023, b"E" * 1024, b"E" * 1025, b"F" * 5000, b"0", b"null", b"\x01", b"\x7f" * 3, b"J" * 65536 + b"KLM"]
    pwd = Scripts("pw", 400, need=NEED)
    k = mkkey(ctx, "k1")
    orig = {"orig": (k.keynum + k.sk64).hex()}
    for i, pw in enumerate(pws):
        s = pwd.get()
        t = k.sk_text(pw=pw, salt=ref.sha512(b"s%d" % i)[:32], **LOW)
        s.op("let", in_=t, to="t")
        for c in ("box", "boxfrom", "file"):
            s.op("sk_load", carrier=c, inreg="t", pw=pw, to="m", meta=orig)
            s.op("pk_from_sk", sk="m", to="p")
        for j, w in enumerate(near(pw) + [x for x in pws if x != pw]):
            s.op("sk_load", carrier=("box", "boxfrom", "file")[j % 3], inreg="t", pw=w, to="m2", meta=orig)
        s.op("sk_load", carrier="box", inreg="t", pw=pw, to="m", meta=orig)
    # every byte of the stored key altered
    alt = Scripts("alter", 500, need=NEED)
    pw = b"correct horse"
    bases = [(k, 0, 1 << 20, 7), (mkkey(ctx, "k2"), 0, 65536, 9)]
    if not ctx.quick:
        bases.append((mkkey(ctx, "k3"), 40000, 1 << 20, 11))
    for bi, (kk, ops, mem, sl) in enumerate(bases):
        b = kk.sk(pw=pw, salt=ref.sha512(b"%d" % sl)[:32], ops=ops, mem=mem)
        o = {"orig": (kk.keynum + kk.sk64).hex()}
        for i in range(158):
            if i in (39, 40, 41) and bi:
                continue        # would only make the derivation slow
            for x in (0x01, 0x80, 0xff) if bi == 0 and not ctx.quick else ((0x01, 0x80)[(i + bi) % 2], 0xff) if not bi else ((1 << (i % 8)),):
                if i in (39, 40, 41) and x != 1:
                    continue
                a = b[:i] + bytes([b[i] ^ x]) + b[i + 1:]
                s = alt.get()
                s.op("sk_load", carrier=("box", "file", "boxfrom")[i % 3], in_=ref.sk_text(a), pw=pw, to="m", meta=o)
                s.op("sk_load", carrier="ubox", in_=ref.sk_text(a), to="m")
        # the same change in two places, as masked fields could cancel
        for i in range(54, 158):
            for j in (i + 1, i + 32, i + 8, 157 - (i - 54)):
                if 54 <= j < 158 and j != i:
                    x = 1 << ((i + j) % 8)
                    a = bytearray(b)
                    a[i] ^= x
                    a[j] ^= x
                    s = alt.get()
                    s.op("sk_load", carrier="box", in_=ref.sk_text(bytes(a)), pw=pw, to="m", meta=o)
        # whole fields replaced, by zeros, by ones, by those of another key under the same password
        oth = mkkey(ctx, "k9").sk(pw=pw, salt=ref.sha512(b"%d" % sl)[:32], ops=ops, mem=mem)
        for lo, hi in [(54, 62), (62, 94), (94, 126), (62, 126), (126, 158), (54, 126), (54, 158), (6, 38)]:
            for f in [bytes(hi - lo), b"\xff" * (hi - lo), b[lo:hi][::-1]] + ([oth[lo:hi]] if (lo, hi) != (54, 158) else []):
                s = alt.get()
                s.op("sk_load", carrier="box", in_=ref.sk_text(b[:lo] + f + b[hi:]), pw=pw, to="m", meta=o)
                s.op("sk_load", carrier="box", in_=ref.sk_text(b[:lo] + f + b[hi:]), pw=b"", to="m", meta=o)
    # sealed keys whose checksum, key id or secret is all zero or lacks; sealed under the right password
    for i, (kn, chk) in enumerate([(None, bytes(32)), (None, b"\xff" * 32), (bytes(8), None), (None, None)]):
        kk = ref.Key(k.seed, kn if kn is not None else k.keynum)
        core = kk.keynum + kk.sk64 + (chk if chk is not None else kk.chk(b"ED" if i == 3 else b"Ed"))
        salt = ref.sha512(b"z%d" % i)[:32]
        b = b"EdScB2" + salt + bytes(10) + b'\x10' + bytes(5) + ref.xor(core, ref.scrypt(pw, salt, 0, 1 << 20))
        s = alt.get()
        s.op("sk_load", carrier="box", in_=ref.sk_text(b), pw=pw, to="m", need=["C05"])
    # keys made by the library, at its own cost
    lib = Scripts("own", 200, need=NEED, profiles=("release",))
    own = [b"password", "p\u00e4ss".encode() + b"w" * 70, b""]
    for i, pw in enumerate(own[:2] if ctx.quick else own):
        s = lib.get()
        s.op("rng", mode=f"seed:{i + 50}")
        s.op("gen", kind="enc", pw=pw, pkto="p0", skto="k0")
        s.op("sk_store", sk="k0", carrier="box", comment=b"c", to="t")
        s.op("sk_load", carrier="box", inreg="t", pw=pw, to="k")
        s.op("pk_from_sk", sk="k", to="p1")
        s.op("pk_eq", pk="p0", other="p1")
        for w in near(pw)[:6 if ctx.quick else 40]:
            s.op("sk_load", carrier="box", inreg="t", pw=w, to="k2")
        s.op("genw", kind="enc", pw=pw, pkto="p0", skto="k0", pkwto="pt", skwto="st")
        s.op("sk_load", carrier="file", inreg="st", pw=pw, to="k")
        s.op("sk_load", carrier="file", inreg="st", pw=pw + b"x", to="k2")
    groups += [pwd, alt, lib]
    return standard(ctx, *groups, note="Keys.tla model checked, its behaviours replayed; password variants; every byte of the stored key altered; judged by TLC with an independent scrypt")
