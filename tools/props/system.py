"""Long behaviours of System.tla: every function of the library on values that earlier calls made, texts altered and
spliced in between."""
import json
import random

import ref
from .common import *

CFG = ''' P = {{{p}}}
 S = {{{s}}}
 G = {{{g}}}
 T = {{{t}}}
 MaxSteps = {steps}
 MaxSigs = {sigs}
 MaxGen = {gen}
 Data = {data}
 Comments = {tcs}
 Warm = {warm}
 Design = "{design}"
 Emit = {emit}'''
INV = ["TypeOK", "NoForgery", "LegacyOnRequest", "NothingCut", "WholeKeys", "Sealed", "SignsAsKey"]
WRONG = [("nocomment", "NoForgery"), ("nochk", "WholeKeys"), ("anytag", "LegacyOnRequest"), ("forgiving", "WholeKeys"), ("bykeyid", "SignsAsKey")]


def small(steps, warm, design="sound"):
    return CFG.format(p='"p1"', s='"s1"', g='"g1"', t='"t1", "t2"', steps=steps, sigs=1, gen=0 if warm else 1, data='{"d"}', tcs='{"x"}', warm=str(warm).upper(), design=design, emit="FALSE")


def explore(ctx):
    """all short behaviours, from nothing and with every slot in use; the unsafe designs"""
    q = ctx.quick
    ctx.model("SystemInd", constants=small(4 if q else 5, False), invariants=INV + ["Ind"], workers=8, view="view", label="System from nothing", allow_never=["Splice", "Bones", "Verify", "Draw", "Of"])
    ctx.model("System", constants=small(3 if q else 4, True), invariants=INV, workers=8, view="view", label="System in use", allow_never=["Gen", "Draw", "Of"])
    # Ind is kept by every call, and the properties follow from it
    ind = CFG.format(p='"p1"', s='"s1"', g='"g1"', t='"t1", "t2"', steps=1, sigs=3, gen=2, data='{"d", "e"}', tcs='{"x", "y"}', warm="FALSE", design="%s", emit="FALSE")
    ctx.model("SystemInd", constants=ind % "sound", invariants=INV[1:] + ["Ind"], spec="IndSpec", workers=8, label="System, one step from anything allowed", allow_never=True)
    ctx.model("SystemInd", constants=ind % "nocomment", invariants=INV[1:] + ["Ind"], spec="IndSpec", expect="NoForgery", workers=8, label="the same, nocomment (must fail)", allow_never=True)
    for d, i in WRONG:
        ctx.model("System", constants=small(4, True, d), invariants=INV, expect=i, workers=8, view="view", label=f"System {d} (must fail)")


def walks(ctx, n, steps):
    c = CFG.format(p='"p1", "p2"', s='"s1", "s2"', g='"g1", "g2"', t='"t1", "t2", "t3"', steps=steps, sigs=8, gen=3, data='{"d", "e"}', tcs='{"x", "y"}', warm="FALSE", design="sound", emit="TRUE")
    seed = ctx.seed
    ctx.seed = ctx.rng.randrange(1 << 30)
    try:
        return ctx.model("System", constants=c, invariants=INV + ["Printed"], spec="WalkSpec", workers=1, simulate=(n, 8 * steps), label="System walks")
    finally:
        ctx.seed = seed


OFF = {"pk": {"id": (2, 8), "key": (10, 32)}, "sk": {"id": (54, 8), "sk": (62, 64), "chk": (126, 32), "label": (2, 0)}, "sig": {"id": (2, 8), "sig": (10, 64), "tag": (1, 0)}}
DATA = [("p1:300", "p2:300"), ("h", "h00"), ("p3:70", "p3:70^69:80"), ("p1:65536", "p1:65537"), ("h74657374", "h7465737400"), ("p4:129", "p4:128"), ("p5:8193", "p5:8193^0:01")]
TCS = [(b"x", b"y"), (b"timestamp:1700000000\tfile:a", b"timestamp:1700000001\tfile:a"), (b"q" * 70, b"q" * 69 + b"r"), ("h\u00e9llo 1".encode(), b"hello 1"), (b"  two", b" two"), (b"t", b"t t")]
PKC = {"box": ("box", "boxfrom", "boxrt", "file"), "b64": ("b64",), "bytes": ("bytes",)}
SIGC = {"box": ("string", "file"), "bones": ("bones",)}
STORE = {"pk": {"box": ("box", "boxinto", "boxbytes"), "b64": ("b64",), "bytes": ("bytes",)}, "sk": {"box": ("box", "boxinto", "boxbytes"), "bytes": ("bytes",)},
         "sig": {"box": ("string", "into", "from", "bytes"), "bones": ("bones",)}}


def replay(ctx, behs):
    out = Scripts("walk", 240, profiles=("dev", "release"))
    for w, b in enumerate(behs):
        r = random.Random(f"{ctx.seed}:{w}")
        s = out.get()
        s.profiles = (("dev",), ("release",))[len(out) % 2]
        ka, kb = mkkey(ctx, f"sysA{w % 5}"), mkkey(ctx, f"sysB{w % 5}")
        d, e = DATA[r.randrange(len(DATA))]
        data = {"d": d, "e": e}
        x, y = TCS[r.randrange(len(TCS))]
        tcs = {"x": x, "y": y}
        pws = {"p": b"pass word", "q": b"pass worD"}
        if w % 3 == 1:
            pws = {"p": b"p" * 64, "q": b"p" * 63}
        plain = ref.expand(d)
        leg, pre, bare = refmade(ka, plain, x, b"u", True), refmade(kb, plain, x, b"", False), refmade(ka, plain, b"", b"", True)
        pool = [ref.pk_text(ka.pk), ref.pk_text(kb.pk), ref.Key(ka.seed, kb.keynum).pk, ref.b64(b"Ed" + ka.keynum + NEUTRAL),
                ref.sk_text(ka.sk(), b"c"), ref.sk_text(kb.sk(pw=pws["p"], salt=ref.sha512(b"sys")[:32], **LOW), b"c"), ka.sk(pw=pws["q"], salt=ref.sha512(b"syt")[:32], **LOW),
                ref.sig_text(leg.bones, leg.tc, leg.gsig, leg.uc), ref.sig_text(pre.bones, pre.tc, pre.gsig, pre.uc), bare.bones]
        bit, idbit = {}, (r.randrange(8), 1 << r.randrange(8))
        s.op("rng", mode="real" if w % 4 == 0 else f"seed:{r.randrange(1 << 30)}")
        for n, c in enumerate(b):
            op = c["op"]
            to = c.get("to") if c["ok"] else "junk"
            m = {"model": c["ok"]}
            if op == "take":
                s.op("let", in_=pool[c["i"] - 1], to=to)
            elif op == "load":
                if c["of"] == "pk":
                    s.op("pk_load", carrier=r.choice(PKC[c["form"]]), inreg=c["from"], to=to, need=["C08", "C11"], meta=m)
                elif c["of"] == "sk":
                    s.op("sk_load", carrier="bytes", inreg=c["from"], to=to, need=["C08"], meta=m)
                else:
                    s.op("sig_load", carrier=r.choice(SIGC[c["form"]]), inreg=c["from"], to=to, need=["C02", "C11"], meta=m)
            elif op == "open":
                if c["how"] == "none":
                    s.op("sk_load", carrier=r.choice(("ubox", "uboxfrom")), inreg=c["from"], to=to, need=["C08"], meta=m)
                else:
                    s.op("sk_load", carrier=r.choice(("box", "boxfrom", "file")), inreg=c["from"], pw=pws[c["how"]], to=to, need=["C05", "C08"], meta=m)
            elif op == "store":
                kw = {}
                if c["of"] == "sk" and c["form"] == "box" and r.random() < .7:
                    kw["comment"] = r.choice(COMMENTS[:12]).encode()
                s.op(c["of"] + "_store", **{c["of"]: c["from"]}, carrier=r.choice(STORE[c["of"]][c["form"]]), to=to, meta=m, **kw)
            elif op == "bones":
                s.op("sig_bones", sig=c["from"], to=to, meta=m)
            elif op == "derive":
                s.op("pk_from_sk", sk=c["from"], to=to, need=["C08"], meta=m)
            elif op == "gen":
                kw = dict(kind="plain") if c["enc"] == "plain" else dict(kind="enc", pw=pws["p"])
                s.op("genw" if c["write"] else "gen", pkto=c["pk"], skto=c["sk"], meta=m, **kw)
            elif op == "sign":
                pk = None if c["pk"] == "none" else c["pk"]
                s.op("sign", sk=c["sk"], pk=pk, data=data[c["data"]], tc=tcs[c["tc"]], uc=r.choice((None, b"u", b"")), reader=r.choice(("r1,e" if data[c["data"]] != "h" else "e", "e")) if c["cut"] else r.choice((None, "*r7", "*r1000", "r1")),
                     to=to, need=["C02"] + (["C17"] if pk else []), meta=m)
            elif op == "verify":
                f = r.randrange(4)
                s.op("verify", pk=c["pk"], sig=c["sig"], data=data[c["data"]], legacy=int(c["legacy"]), quiet=f & 1, output=f >> 1, reader=r.choice(("r1,e" if data[c["data"]] != "h" else "e", "e")) if c["cut"] else r.choice((None, "*r7", "*r1000", "r1")),
                     need=["C02", "C15"] + (["C04"] if c["legacy"] else []), meta=m)
            elif op == "edit":
                f, of, form = c["field"], c["of"], c["form"]
                line = 0 if form in ("bytes", "bones") else 1 if form == "b64" else 2
                if f == "tc":
                    s.op("edit", inreg=c["from"], line=3, xor=b"\1", to=to)
                elif f == "gsig":
                    i, x = bit.setdefault(f, (r.randrange(64), 1 << r.randrange(8)))
                    s.op("edit", inreg=c["from"], line=4, at=i, xor=bytes([x]), to=to)
                else:
                    o, l = OFF[of][f]
                    if f == "label":
                        i, x = 0, b"Sc"
                    elif f == "tag":
                        i, x = 0, b"\x20"
                    else:
                        # the same bit of the id in public keys and signatures: two alterations may meet
                        i, v = idbit if f == "id" else bit.setdefault((of, f), (r.randrange(l), 1 << r.randrange(8)))
                        x = bytes([v])
                    s.op("edit", inreg=c["from"], line=line, at=o + i, xor=x, to=to)
            elif op == "splice":
                s.op("splice", inreg=c["from"], with_=c["with"], lines=c["lines"], to=to)
            elif op == "copy":
                s.op("clone", reg=c["from"], to=to)
            elif op == "drop":
                s.op("drop", reg=c["from"])
            elif op == "eq":
                s.op(c["of"] + "_eq", **{c["of"]: c["a"]}, other=c["b"])
            else:
                raise ToolError(op)
    return out


def group(evs):
    """what a call is given decides what comes out: the same call anywhere else is compared with it"""
    for e in evs:
        if e["op"] in ("verify", "pk_load", "sk_load", "sig_load", "pk_store", "pk_from_sk", "sig_bones", "sig_store"):
            k = {f: e.get(f) for f in ("op", "carrier", "in", "pw", "pkb", "skb", "sigb", "sigsrc", "data", "legacy", "output", "reader")
                 if f in e and not (f in ("pkb", "skb") and e["op"] in ("pk_load", "sk_load")) and not (f == "pkb" and e["op"] == "pk_from_sk")}
            e["grp"], e["gp"] = json.dumps(k, sort_keys=True), "C18"
    return evs


def system(ctx, n=None, steps=40):
    return replay(ctx, walks(ctx, n or (30 if ctx.quick else 400), steps))
