"""Replays the behaviours of Keys.tla into the real library."""
import ref
from .common import *

INV = ["OnlyRightPassword", "RightPasswordOpens", "NeverAnother", "LabelsRespected", "ChecksumHolds", "NoSigningWhenSealed", "PlainReboxOpens"]
PW = {"p": b"correct horse", "q": b"correct horsf", "empty": b""}


def model(ctx, emit):
    b = ctx.model("Keys", constants=f" MaxAlter = {2 if ctx.quick else 4}\n Emit = {emit}", invariants=INV + ["Printed"], workers=8)
    seen = {}
    for x in b:
        seen.setdefault((x["kind"], x["pw"], tuple(sorted(x["altered"]))), []).append(x["log"])
    out = []
    for (kind, pw, alt), logs in sorted(seen.items()):
        keys = {tuple((e["op"], e["pw"]) for e in l) for l in logs}
        pre = {k[:i] for k in keys for i in range(1, len(k))}
        done = set()
        for l in logs:
            k = tuple((e["op"], e["pw"]) for e in l)
            if k in pre or k in done:
                continue
            done.add(k)
            out.append((kind, pw, alt, l))
    return out


def stored(ctx, kind, pw, alt, n):
    """the stored key of a behaviour, and what it was before"""
    k = mkkey(ctx, f"life{n % 3}")
    other = mkkey(ctx, f"life-other{n % 3}")
    salt = ref.sha512(b"salt%d" % (n % 6))[:32]
    if kind == "plain":
        b, o = bytearray(k.sk(salt=salt)), other.sk(salt=salt)
    else:
        b = bytearray(k.sk(pw=PW[pw], salt=salt, **LOW))
        o = other.sk(pw=PW[pw], salt=ref.sha512(b"other%d" % (n % 6))[:32], **LOW)

    def flip(lo, hi):
        i = lo + (n * 7919) % (hi - lo)
        b[i] ^= 1 << (n % 8)
    for a in alt:
        if a == "label-none":
            b[2:4] = b"\0\0"
        elif a == "label-Sc":
            b[2:4] = b"Sc"
        elif a == "label-other":
            b[2:4] = [b"sc", b"S\0", b"\0c", b"B2", b"Sd", b"\1\0", b"Tc"][n % 7]
        elif a == "alg":
            b[0:2] = [b"ED", b"ed", b"E\0"][n % 3]
        elif a == "chkalg":
            b[4:6] = [b"b2", b"\0\0", b"B3"][n % 3]
        elif a == "salt":
            flip(6, 38)
        elif a == "par":
            b[46:54] = (4096).to_bytes(8, "little")
        elif a == "par-excessive":
            if n % 2:
                b[38:46] = [MAXOPS + 1, 2**32, 2**63][n % 3].to_bytes(8, "little")
            else:
                b[46:54] = [MAXMEM + 1, 2**40, 2**64 - 1][n % 3].to_bytes(8, "little")
        elif a == "id":
            flip(54, 62)
        elif a == "sk":
            flip(62, 126)
        elif a == "chk":
            flip(126, 158)
        elif a == "id-of-other":
            b[54:62] = o[54:62]
        elif a == "core-of-other":
            b[54:158] = o[54:158]
        elif a == "tail":
            b += bytes(n % 5 + 1)
        else:
            raise ToolError(a)
    return k, bytes(b)


def replay(ctx, behs, need_open, name="life", modelled=True):
    out = Scripts(name, 500, profiles=("dev", "release"))
    for n, (kind, pw, alt, log) in enumerate(behs):
        s = out.get()
        k, b = stored(ctx, kind, pw, alt, n)
        s.op("let", in_=b, to="raw")
        s.op("let", in_=ref.sk_text(b, b"k"), to="txt")
        load_pk(s, "kp", k.pk)
        fresh = True
        lost = False          # D8: a key opened with a password was put back into a box
        last = None
        for j, e in enumerate(log):
            meta = {"model": e["ok"]} if modelled else {}
            orig = (k.keynum + k.sk64).hex() if fresh and kind == "enc" and "core-of-other" not in alt else None
            if e["op"] == "plain":
                s.op("sk_load", carrier=("ubox", "uboxfrom")[n % 2], inreg="txt", to="m", need=need_open, meta=meta)
            elif e["op"] == "with":
                m = dict(meta, **({"orig": orig} if orig else {}))
                s.op("sk_load", carrier=("box", "boxfrom", "file")[n % 3], inreg="txt", pw=PW[e["pw"]], to="m", need=need_open, meta=m)
            elif e["op"] == "bytes":
                s.op("sk_load", carrier="bytes", inreg="raw", to="m", need=need_open, meta=meta)
            elif e["op"] == "sign":
                s.op("pk_from_sk", sk="m", to="pp")
                if n % 2:
                    s.op("sign", sk="m", data="h6d", to="g", need=["C02"], meta=meta)
                    s.op("sign", sk="m", pk="kp", data="p1:100", tc=b"t", to="g", need=["C02"], meta=meta)
                else:
                    s.op("sign", sk="m", pk="kp", data="h6d", to="g", need=["C02"], meta=meta)
            elif e["op"] == "rebox":
                s.op("sk_store", sk="m", carrier=("box", "boxinto", "boxbytes")[n % 3], comment=b"again", to="txt")
                s.op("sk_store", sk="m", carrier="bytes", to="raw")
                fresh = False
            last = e
        s.op("drop", reg="m")
        s.op("drop", reg="txt")
        s.op("drop", reg="raw")
        s.op("drop", reg="g")
    return out
