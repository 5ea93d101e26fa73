"""C06: encrypted key pairs never leave the secret key in the clear."""
import ref
from . import keyslife
from .common import *

NEED = ["C06"]
PWS = [b"", b"p", b"password", b" ", b"  x ", b"\t", b"x\n", b"\n", b"\0", b"a\0b", b"\0\0\0", "h\u00e9\U0001f512".encode(), b"A" * 63, b"A" * 64, b"A" * 65, b"A" * 127, b"A" * 128, b"A" * 129, b"B" * 1000,
       b"C" * 1024, b"D" * 1025, b"E" * 5000, b"None", b"Sc", b"\x7f", "\ufeff".encode()]
CMTS = [None, b"", b"c", b" x ", "é".encode(), b"A" * 300, b"minisign encrypted secret key", b"rsign encrypted secret key"]


def check(ctx):
    ctx.prepare()
    # design level: what a box labelled as encrypted allows, and what it takes to open it
    keyslife.model(ctx, 0)
    ctx.model("Rng", constants=' MaxOps = 3\n Design = "hedged"\n Emit = FALSE', invariants=["AllFresh", "FailClosed"], workers=8)
    out = Scripts("genenc", 4, need=NEED, profiles=("release",))
    n = 0
    reps = 1 if ctx.quick else 6
    for rep in range(reps):
        for i, pw in enumerate(PWS):
            s = out.get()
            s.op("rng", mode=f"seed:{ctx.seed * 7919 + n}" if n % 4 else "real")
            m = {"fresh": True}
            # returned, and written; then stored, and opened again with the same password
            s.op("gen", kind="enc", pw=pw, pkto="p", skto="k", meta=m)
            s.op("sk_store", sk="k", carrier=("box", "boxinto", "boxbytes")[n % 3], comment=b"c", to="o")
            s.op("sk_load", carrier="box", inreg="o", pw=pw, to="u")
            s.op("sk_load", carrier="ubox", inreg="o", to="u2")
            c = CMTS[n % len(CMTS)]
            s.op("genw", kind="enc", pw=pw, pkto="p", skto="k", pkwto="pt", skwto="st", comment=c, meta=m)
            s.op("sk_load", carrier="box", inreg="st", pw=pw, to="u")
            n += 1
    # the same password again and again: salts differ
    same = Script("same", profiles=("release",), need=NEED)
    same.op("rng", mode="real")
    for i in range(10 if ctx.quick else 100):
        same.op("gen" if i % 2 else "genw", kind="enc", pw=b"same", pkto="p", skto="k", meta={"fresh": True})
    # generation that fails at any point writes nothing in the clear
    part = Scripts("partial", 12, need=[], profiles=("release",))
    scheds = ["e", "w10,e", "w100,e", "w200,e", "w250,e", "z", "*w1,w0", "w60,z", "fe", "w1,i,w2,e"]
    for i, sc in enumerate(scheds):
        for side in ("wpk", "wsk"):
            s = part.get()
            s.op("rng", mode=f"seed:{ctx.seed * 31 + 100 + i}")
            s.op("genw", kind="enc", pw=b"pw", pkto="p", skto="k", comment=b"c" if i % 2 else None, **{side: sc})
    for k in range(1, 5):
        s = part.get()
        s.op("rng", mode=f"fail:{k}:{ctx.seed + k}")
        s.op("genw", kind="enc", pw=b"pw", pkto="p", skto="k")
        s.op("gen", kind="enc", pw=b"pw", pkto="p", skto="k")
    dbg = Script("dbg", profiles=("dev",), need=NEED)
    dbg.op("rng", mode=f"seed:{ctx.seed + 9}")
    for i in range(2):
        dbg.op("gen", kind="enc", pw=PWS[i], pkto="p", skto="k", meta={"fresh": True})
        dbg.op("genw", kind="enc", pw=PWS[i], pkto="p", skto="k", meta={"fresh": True})
    return standard(ctx, out, [same], part, [dbg], note="every generated key pair, returned and written, is unsealed by the specification with an independent scrypt, over the recorded draws of the random generator; Keys.tla and Rng.tla model checked")
