"""C13: key pair writing reports success only if both keys are fully written."""
from .common import *

NEED = ["C13"]
INV = ["TypeOK", "Complete", "FaultIsError", "Quiet", "FlushedAfter"]
WRONG = (("once", "Complete"), ("noflush", "FlushedAfter"), ("early", "FlushedAfter"), ("deaf", "FaultIsError"), ("stuck", "Complete"))
CMTS = [None, b"", b"c", b" x ", "h\u00e9 \U0001f512".encode(), b"A" * 500, b"untrusted comment: y", b"trusted comment: z", b"x\t", "\u00a0".encode(), b"minisign public key: 0123456789ABCDEF"]


def model(ctx, design="sequential", emit=True, l1=3, l2=4, mf=2, label=None):
    return ctx.model("Writers", constants=f' L1 = {l1}\n L2 = {l2}\n MaxFaults = {mf}\n Design = "{design}"\n Emit = {"TRUE" if emit else "FALSE"}',
                     invariants=INV + (["Printed"] if emit else []), properties=["Ends"], workers=4, label=label)


def sched(log, piece):
    out = []
    for e in log:
        if e["k"] == "w":
            out.append("z" if e["n"] == 0 else f"w{e['n'] * piece}")
        else:
            out.append({"i": "i", "e": "e", "f": "f", "fe": "fe", "fi": "fi"}[e["k"]])
    return ",".join(out)


def read_back(s, kind, pw):
    """what was written, read by everything that reads it"""
    if kind == "plain":
        s.op("pk_load", carrier="bytes", inreg="pt", to="p2", need=NEED)
        s.op("sk_load", carrier="bytes", inreg="st", to="k2", need=NEED)
    else:
        s.op("pk_load", carrier="box", inreg="pt", to="p2", need=NEED)
        s.op("pk_load", carrier="file", inreg="pt", to="p2", need=NEED)
        s.op("sk_load", carrier="box", inreg="st", pw=pw, to="k2", need=NEED)
    s.op("pk_eq", pk="p", other="p2")
    s.op("sign", sk="k2", pk="p2", data="h6d", to="g", need=NEED)
    s.op("verify", pk="p2", sig="g", data="h6d", need=NEED, quiet=1, output=0, legacy=0)
    for r in ("p", "k", "p2", "k2", "g", "pt", "st"):
        s.op("drop", reg=r)


def check(ctx):
    ctx.prepare()
    q = ctx.quick
    behs = model(ctx)
    model(ctx, "together", False, label="Writers together")
    for d, e in WRONG:
        ctx.model("Writers", constants=f' L1 = 2\n L2 = 2\n MaxFaults = 1\n Design = "{d}"\n Emit = FALSE', invariants=INV, expect=e, workers=2, label=f"Writers {d} (must fail)")
    if not q:
        model(ctx, emit=False, l1=6, l2=8, mf=4, label="Writers deeper")
    ctx.rng.shuffle(behs)
    n = 0
    # ---- behaviours of the model.  A piece is a third (a quarter) of what is written, rounded up
    plain = Scripts("plain", 300, need=NEED, profiles=("dev", "release"))
    enc = Scripts("enc", 12, need=NEED, profiles=("release",))
    for i, b in enumerate(behs):
        m = {"model": b["ok"]} if b["sure"] else {}
        s = plain.get()
        if i % 50 == 0:
            s.op("rng", mode=f"seed:{ctx.seed * 101 + i}")
        s.op("genw", kind="plain", pkto="p", skto="k", pkwto="pt", skwto="st", wpk=sched(b["a"], 14), wsk=sched(b["b"], 40), meta=m)
        if b["ok"]:
            read_back(s, "plain", None)
    for i, b in enumerate(behs[:(90 if q else 3000)]):
        s = enc.get()
        if i % 12 == 0:
            s.op("rng", mode=f"seed:{ctx.seed * 103 + i}")
        pw = (b"pw", b"", "\u00e9".encode())[i % 3]
        s.op("genw", kind="enc", pw=pw, pkto="p", skto="k", pkwto="pt", skwto="st", comment=CMTS[i % len(CMTS)], wpk=sched(b["a"], 38), wsk=sched(b["b"], 120))
        if b["ok"]:
            read_back(s, "enc", pw)
    # ---- a failure at every byte of both keys, whatever the pieces
    cut = Scripts("cut", 400, need=NEED, profiles=("dev",))
    kinds = ("e", "z", "i,e", "i,i,z")
    for side, n_ in (("wpk", 42), ("wsk", 158)):
        for at in range(0, n_):
            for k in (kinds[at % 4], "e") if q else kinds:
                steps = [f"w{at}"] if at else []
                cut.get().op("genw", kind="plain", pkto="p", skto="k", **{side: ",".join(steps + [k])})
            one = ["w1"] * at
            cut.get().op("genw", kind="plain", pkto="p", skto="k", **{side: ",".join(one + ["e" if at % 2 else "z"])})
    ecut = Scripts("ecut", 24, need=NEED, profiles=("release",))
    for side, n_ in (("wpk", 114), ("wsk", 290)):
        for at in range(0, n_, 23 if q else 1):
            for k in ("e", "z") if q else kinds:
                ecut.get().op("genw", kind="enc", pw=b"pw", comment=b"c", pkto="p", skto="k", **{side: ",".join(([f"w{at}"] if at else []) + [k])})
    # ---- successful ways to write
    ok = Scripts("ok", 120, need=NEED, profiles=("dev",))
    for i in range(1, 160, 1 if not q else 3):
        s = ok.get()
        s.op("genw", kind="plain", pkto="p", skto="k", pkwto="pt", skwto="st", wpk=f"*w{(i % 43) + 1}", wsk=f"*w{i}")
        read_back(s, "plain", None)
    eok = Scripts("eok", 12, need=NEED, profiles=("release",))
    for i, c in enumerate(CMTS + [None, b"B" * 5000] + ([] if q else CMTS * 6)):
        s = eok.get()
        pw = (b"pw", b"", b"x" * 300)[i % 3]
        s.op("genw", kind="enc", pw=pw, comment=c, pkto="p", skto="k", pkwto="pt", skwto="st", wpk=("", "*w1", "w5,*w60", "i,i,*w7")[i % 4], wsk=("*w1", "", "*w100,i,i,i", "w56,i,*w13")[i % 4])
        read_back(s, "enc", pw)
    # ---- flushing
    fl = Scripts("flush", 40, need=NEED, profiles=("release",))
    for i, (a, b) in enumerate([("fe", ""), ("", "fe"), ("fe", "fe"), ("fi", ""), ("", "fi"), ("*w1,fe", "*w1"), ("*w1", "*w1,fe"), ("w1,i,fe", ""), ("", "w1,i,fe"), ("f,fe", ""), ("", "f,fe")]):
        for _ in range(3):
            fl.get().op("genw", kind="plain", pkto="p", skto="k", wpk=a, wsk=b)
        fl.get().op("genw", kind="enc", pw=b"pw", comment=b"c", pkto="p", skto="k", wpk=a, wsk=b)
    return standard(ctx, plain, enc, cut, ecut, ok, eok, fl,
                    note="Writers.tla model checked (unsafe designs shown to fail) and its behaviours replayed with scheduled writers; a failure at every byte; TLC judges each call by what the writers took and reads back what was written")
