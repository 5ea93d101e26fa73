"""C20: nothing that is published, printed or reported gives a secret away."""
import ref
from .common import *

INV = ["SeedSecret", "PasswordSecret", "ChecksumSecret", "NotBlind"]
WRONG = [("shared-nonce", "SeedSecret"), ("fixed-nonce", "SeedSecret"), ("periodic-mask", "SeedSecret"), ("clear-seed", "SeedSecret"), ("one-salt", "ChecksumSecret"),
         ("quote", "PasswordSecret"), ("wrong-half", "SeedSecret"), ("dump", "SeedSecret"), ("echo", "PasswordSecret")]
NOTE = "Secrets.tla (what an onlooker can conclude; nine unsafe designs shown to fail) model checked, its behaviours replayed with random keys and passwords; TLC collects the secrets of each history and looks for them in everything public, and for repeated masks and nonces"
ALNUM = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def password(ctx, n):
    """passwords that nothing else would contain"""
    r = ctx.rng
    l = (8, 12, 24, 70, 10)[n % 5]
    b = bytes(r.choice(ALNUM) for _ in range(l))
    if n % 5 == 4:
        b = b"\xc3\xa9" + b + "\u4f60".encode()
    return b


def check(ctx):
    ctx.prepare()
    q = ctx.quick
    behs = ctx.model("Secrets", constants=f' MaxOps = {3 if q else 4}\n Design = "sound"\n Emit = TRUE', invariants=INV + ["Printed"], workers=4)
    ctx.model("Secrets", constants=f' MaxOps = {4 if q else 6}\n Design = "sound"\n Emit = FALSE', invariants=INV, workers=8, label="Secrets deeper")
    for d, i in WRONG:
        ctx.model("Secrets", constants=f' MaxOps = 4\n Design = "{d}"\n Emit = FALSE', invariants=INV, expect=i, workers=2, label=f"Secrets {d} (must fail)")
    ctx.rng.shuffle(behs)
    budget = 40 if q else 300
    life = Scripts("onlook", 150, profiles=("release",), need=[])
    for n, b in enumerate(behs):
        s = life.get()
        if len(s) == 0:
            s.op("rng", mode=f"seed:{ctx.seed * 1009 + n}")
        pw = {"p": password(ctx, n), "q": password(ctx, n + 1)}
        have, made = {}, set()
        foreign = mkkey(ctx, f"foreign{n % 5}")
        load_pk(s, "fp", foreign.pk)
        for i, e in enumerate(b):
            k, op = e.get("k"), e["op"]
            if op in ("gen", "genw"):
                if e["sealed"] and budget <= 0:
                    # made elsewhere, cheaper to open
                    key = mkkey(ctx, f"onlook{n}{k}")
                    s.op("let", in_=ref.sk_text(key.sk(pw=pw["p"], salt=ref.sha512(b"%d%s" % (n, k.encode()))[:32], **LOW), b"k"), to="t" + k)
                else:
                    kind = "enc" if e["sealed"] else "plain"
                    budget -= e["sealed"]
                    kw = dict(kind=kind, pkto="p" + k, skto="k" + k)
                    if e["sealed"]:
                        kw["pw"] = pw["p"]
                    if op == "genw":
                        s.op("genw", pkwto="pw" + k, skwto="t" + k, comment=b"c" if e["sealed"] and n % 2 else None, **kw)
                    else:
                        s.op("gen", **kw)
                    if op == "gen" or not e["sealed"]:
                        s.op("sk_store", sk="k" + k, carrier="box", comment=b"k" if n % 2 else None, to="t" + k)
                    made |= {"p" + k}
                    if e["sealed"]:
                        s.op("drop", reg="k" + k)
                have[k] = e["sealed"]
            elif op == "open":
                if e["pw"] == "none":
                    s.op("sk_load", carrier=("ubox", "uboxfrom")[n % 2], inreg="t" + k, to="x" + k)
                else:
                    s.op("sk_load", carrier=("box", "boxfrom", "file")[n % 3], inreg="t" + k, pw=pw[e["pw"]], to="x" + k)
                    if have[k] and e["pw"] == "p":
                        s.op("sk_load", carrier="box", inreg="t" + k, pw=pw["p"], to="k" + k)
            elif op == "sign":
                kw = dict(sk="k" + k, data=f"p{n % 9}:{(n * 37) % 3000}", to="g")
                if n % 2 and e["how"] == "ok":
                    kw["pk"] = "d" + k
                    s.op("pk_from_sk", sk="k" + k, to="d" + k)
                if e["how"] == "foreign":
                    kw["pk"] = "fp"
                if e["how"] == "fault":
                    kw["reader"] = ("e", "r1,e", "i,r1,u")[n % 3]
                if n % 3:
                    kw.update(tc=b"t %d" % i, uc=b"u")
                s.op("sign", **kw)
                s.op("sig_store", sig="g", carrier="string", to="gt")
                s.op("drop", reg="g")
            elif op == "derive":
                s.op("pk_from_sk", sk="k" + k, to="d" + k)
                s.op("pk_store", pk="d" + k, carrier=("box", "b64", "bytes", "boxbytes")[n % 4], to="dt")
                made |= {"d" + k}
        for r in ("pA", "pB", "kA", "kB", "dA", "dB", "xA", "xB", "tA", "tB", "pwA", "pwB", "g", "gt", "dt"):
            s.op("drop", reg=r)
    # ---- errors about damaged, mislabelled and mistaken texts of keys
    bad = Scripts("quote", 250, need=[], profiles=("dev",))
    for n in range(12 if q else 80):
        s = bad.get()
        key, pw = mkkey(ctx, f"quote{n}"), password(ctx, n)
        wrong = password(ctx, n + 2)
        plain, sealed = key.sk(salt=bytes(32)), key.sk(pw=pw, salt=ref.sha512(b"q%d" % n)[:32], **LOW)
        s.op("sk_load", carrier="bytes", in_=plain, to="k")
        s.op("sk_load", carrier="box", in_=ref.sk_text(sealed, b"c"), pw=pw, to="ke")

        def texts(b):
            t = ref.sk_text(b, b"c")
            yield t
            yield t.rstrip(b"\n") + b"!\n"
            yield t[:-3]
            yield t.split(b"\n")[1]
            yield t.split(b"\n")[1] + b"\n" + t
            yield t.replace(b"untrusted", b"Untrusted")
            yield t + t
            yield t.replace(b"A", b"-")
            yield b"\xc3\xa9" + t
            yield t[:60] + b"\xc3\xa9" + t[61:]
        for d in (plain, sealed):
            alts = [d, d[:-1], d + b"\0", b"XX" + d[2:], d[:2] + b"Zz" + d[4:], d[:4] + b"??" + d[6:], d[:100], d[:62] + bytes([d[62] ^ 1]) + d[63:],
                    d[:157] + bytes([d[157] ^ 1]), d[:54] + bytes(8) + d[62:], d[:2] + (b"Sc" if d is plain else b"\0\0") + d[4:], d[:38] + b"\xff" * 8 + d[46:], d[:46] + b"\xff" * 8 + d[54:], d[:94] + bytes(32) + d[126:]]
            for a, x in enumerate(alts):
                s = bad.get()
                s.op("sk_load", carrier="bytes", in_=x, to="x")
                s.op("sign", sk="x", data="h6d", to="g")
                for t in (texts(x) if a == 0 else [ref.sk_text(x, b"c")]):
                    s.op("sk_load", carrier="ubox", in_=t, to="x")
                    s.op("sk_load", carrier=("box", "boxfrom", "file")[n % 3], in_=t, pw=(wrong if n % 2 else pw), to="x")
                    s.op("pk_load", carrier="box", in_=t, to="y")
                    s.op("sig_load", carrier="string", in_=t, to="z")
                s.op("pk_load", carrier="bytes", in_=x, to="y")
                s.op("pk_load", carrier="b64", in_=ref.b64(x), to="y")
        u = pw.decode()
        for w in (wrong, pw + b"!", u[:-1].encode(), b"!" + pw, pw.upper() + b"A", u[::-1].encode()):
            s.op("sk_load", carrier="box", in_=ref.sk_text(sealed, b"c"), pw=w, to="x")
        s.op("sk_load", carrier="box", in_=ref.sk_text(plain, b"c"), pw=wrong, to="x")
        for kk in ("k", "ke"):
            s.op("rng", mode="fail:1:1")
            s.op("sign", sk=kk, data="h6d", to="g")
            s.op("rng", mode="real")
            s.op("sign", sk=kk, data="h6d", tc=b"a\nb", to="g")
            s.op("sign", sk=kk, data="h6d", uc=b"a\nb", to="g")
            s.op("sign", sk=kk, data="h6d", to="g")
            s.op("pk_from_sk", sk=kk, to="y")
            load_pk(s, "z", mkkey(ctx, f"quote{n + 1}").pk)
            s.op("sign", sk=kk, pk="z", data="h6d", to="g")
            s.op("verify", pk="z", sig="g", data="h6d", quiet=0, output=1, legacy=1)
    # ---- writers that fail, generators that fail
    wr = Scripts("writers", 40, need=[], profiles=("release",))
    for n in range(30 if q else 200):
        s = wr.get()
        s.op("rng", mode=(f"seed:{n}", f"fail:{1 + n % 4}:{n}")[n % 2])
        f = ["e", "w10,e", "w41,e", "z", "fe"][n % 5]
        s.op("genw", kind="plain", pkto="p", skto="k", **{("wpk", "wsk")[n % 2]: f})
        if n % 5 == 0:
            s.op("genw", kind="enc", pw=password(ctx, n), comment=b"c", pkto="p", skto="k", **{("wpk", "wsk")[n // 5 % 2]: ["e", "w100,e", "fe"][n // 5 % 3]})
    # ---- passwords that are typed, rightly, wrongly, or differently the second time
    ty = Scripts("typed", 30, need=[], profiles=("release",))

    def text(b):
        return {"k": "text", "t": b.hex()}
    end, stop = {"k": "eof", "t": ""}, {"k": "intr", "t": ""}
    for n in range(16 if q else 120):
        s = ty.get()
        if len(s) == 0:
            s.op("rng", mode=f"seed:{ctx.seed * 77 + n}")
        pw, other = password(ctx, n), password(ctx, n + 1)
        key = mkkey(ctx, f"typed{n % 4}")
        sealed = key.sk(pw=pw, salt=ref.sha512(b"t%d" % n)[:32], **LOW)
        long = (pw + other) * 60
        long = (long.decode()[:1025 + n % 300]).encode()
        for plan in ([text(pw), text(other)], [text(pw), end], [text(pw), text(pw + b"x")], [text(pw), text(pw.decode()[:-1].encode())], [text(long), text(long)], [text(pw), text(long)],
                     [text(pw), stop]):
            s.op(("gen", "genw")[n % 2], kind="enc", pkto="p", skto="k", meta={"plan": plan})
        if n % 4 == 0:
            s.op(("gen", "genw")[n // 4 % 2], kind="enc", pkto="p", skto="k", meta={"plan": [text(pw), text(pw)]})
        for b in (sealed, sealed[:100] + bytes([sealed[100] ^ 1]) + sealed[101:], key.sk(), sealed[:2] + b"??" + sealed[4:], sealed[:-1], sealed[:38] + b"\xff" * 8 + sealed[46:]):
            for t in (pw, other, long):
                s.op("sk_load", carrier=("box", "boxfrom", "file")[n % 3], in_=ref.sk_text(b, b"c"), to="k", meta={"plan": [text(t)]})
        for w in ("wpk", "wsk"):
            if n % 8 == 0:
                s.op("genw", kind="enc", pkto="p", skto="k", meta={"plan": [text(pw), text(pw)]}, **{w: "w9,e"})
    rej = judge_runs(ctx, ctx.run_tty(ty))
    return standard(ctx, life, bad, wr, note=NOTE)
