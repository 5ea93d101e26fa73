"""C04: legacy signatures are accepted only on explicit request."""
import ref
from . import c01
from .common import *


def check(ctx):
    ctx.prepare()
    behs = c01.forge_model(ctx, 1 if ctx.quick else 2)
    need = ["C04"]
    groups = c01.forge_scripts(ctx, behs, need)
    k, k2 = mkkey(ctx, "k1"), mkkey(ctx, "k2")
    out = Scripts("legacy", 500, need=need, profiles=("dev", "release"))
    ds = ["", "h61", "p1:64", "p2:63", "p3:65", "p4:127", "p5:128", "p6:1000", "p7:8192", "p8:8193", "p9:70000", "p10:65536"] + ([] if ctx.quick else ["p11:300000", "p12:1048577"])
    lib, _ = libmade(ctx, [(k, d, b"c", None) for d in ds], "legacy-made")
    n = 0
    for d, lm in zip(ds, lib):
        data = ref.expand(d)
        ms = [refmade(k, data, b"c", legacy=True), refmade(k, data, b"c")] + ([lm] if lm else [])
        # the right bytes under the other tag; signed twice over, etc.
        hh = ref.blake2b(data)
        for alg, msg in ((b"Ed", hh), (b"ED", data), (b"Ed", ref.blake2b(hh)), (b"ED", ref.blake2b(hh))):
            sg = ref.ed_sign(k.seed, msg)
            ms.append(Made(alg + k.keynum + sg, b"c", ref.ed_sign(k.seed, sg + b"c")))
        for m in ms:
            for other in (False, True):
                bones = ((b"ED" if m.alg == b"Ed" else b"Ed") + m.bones[2:]) if other else m.bones
                for form in ("bones", "string", "file"):
                    n += 1
                    s = out.get()
                    load_pk(s, "p", k.pk, ("bytes", "b64", "box")[n % 3])
                    g = m.gsig
                    if form == "bones":
                        load_sig(s, "s", bones)
                    else:
                        load_sig(s, "s", bones, m.tc, g, carrier=form)
                    for q in range(4):
                        for a in (0, 1):
                            # pre-hashed: the same with and without
                            gr = f"pre{n}-{q}" if bones[:2] == b"ED" else None
                            s.op("verify", pk="p", sig="s", data=d, quiet=q & 1, output=q >> 1, legacy=a, grp=gr, gp="C04")
                    if form != "bones":
                        s.op("sig_bones", sig="s", to="b")
                        for a in (0, 1):
                            s.op("verify", pk="p", sig="b", data=d, quiet=1, output=0, legacy=a)
                        s.op("sig_store", sig="s", carrier="string", to="t")
                        s.op("sig_load", carrier="string", inreg="t", to="s2")
                        for a in (0, 1):
                            s.op("verify", pk="p", sig="s2", data=d, quiet=1, output=0, legacy=a)
                    # an invalid legacy signature stays so
                    for a in (0, 1):
                        s.op("verify", pk="p", sig="s", data=(d + "+" if d else "") + "h00", quiet=1, output=0, legacy=a)
    # other tags, in both forms, and after a valid one
    tg = Scripts("tags", 600, need=need)
    data = ref.expand("p1:50")
    tags = {bytes([a ^ (1 << i), b]) for a, b in (b"ED", b"Ed") for i in range(8)} | {bytes([a, b ^ (1 << i)]) for a, b in (b"ED", b"Ed") for i in range(8)}
    tags |= {b"ed", b"eD", b"EE", b"dE", b"DE", b"\0\0", b"\xff\xff", b"B2", b"Sc", b"E ", b"E\0", b"EB", b"Eb", b"Es", b"ES"}
    if not ctx.quick:
        tags |= {bytes([69, x]) for x in range(256)} | {bytes([x, y]) for x in range(256) for y in (68, 100)}
    tags -= {b"ED", b"Ed"}
    for t in sorted(tags) + [b"ED", b"Ed"]:
        for m in (refmade(k, data, b"c"), refmade(k, data, b"c", legacy=True)):
            b = t + m.bones[2:]
            s = tg.get()
            load_pk(s, "p", k.pk)
            for form in ("bones", "string", "file"):
                if form == "bones":
                    load_sig(s, "s" + form, b)
                else:
                    load_sig(s, "s" + form, b, m.tc, m.gsig, carrier=form)
                for a in (0, 1):
                    s.op("verify", pk="p", sig="s" + form, data=h(data), quiet=1, output=0, legacy=a)
                s.op("sig_bones", sig="s" + form, to="x")
                s.op("drop", reg="s" + form)
    # produced signatures
    pr = Scripts("produced", 300, need=need, profiles=("dev", "release"))
    for i, l in enumerate((0, 1, 64, 1000, 100000)):
        s = pr.get()
        s.op("rng", mode="real" if i % 2 else f"seed:{i}")
        s.op("gen", kind="plain", pkto="p", skto="k")
        for tc in (None, b"", b"tc", b"hashed", b"legacy"):
            for pk in (None, "p"):
                s.op("sign", sk="k", pk=pk, data=f"p{l}:{l}", tc=tc, to="s")
                for a in (0, 1):
                    s.op("verify", pk="p", sig="s", data=f"p{l}:{l}", quiet=1, output=0, legacy=a)
                s.op("sig_store", sig="s", carrier="string", to="t")
                s.op("sig_load", carrier="string", inreg="t", to="s2")
                s.op("sig_bones", sig="s", to="s3")
    # histories: a legacy acceptance must not change what comes next
    hi = Scripts("history", 400, need=need)
    m1, m2 = refmade(k, data, b"c", legacy=True), refmade(k, data, b"c")
    for i in range(8):
        s = hi.get()
        load_pk(s, "p", k.pk)
        load_sig(s, "l", m1.bones, m1.tc, m1.gsig)
        load_sig(s, "h", m2.bones, m2.tc, m2.gsig)
        for j in range(6):
            a = (i >> (j % 3)) & 1
            s.op("verify", pk="p", sig="lh"[(i + j) % 2], data=h(data), quiet=j & 1, output=0, legacy=a)
            s.op("verify", pk="p", sig="l", data=h(data), quiet=1, output=1, legacy=j & 1)
    groups += [out, tg, pr, hi]
    return standard(ctx, *groups, note="Forge.tla (LegacyOnRequest, LegacyFlagIrrelevant) model checked and replayed; tags, flags, forms enumerated; judged by TLC against Judge.tla")
