"""C15: everything produced follows the minisign format and interoperates."""
import hashlib

import ref
from . import prims
from .common import *

NEED = ["C15"]
ASPECTS = ["key-layout", "key-tags", "key-id", "checksum", "mask", "limits", "public-of-seed", "text-lines", "base64", "pk-layout", "sig-layout", "sig-tag", "data-hash", "global-message"]
PWS = [b"pw", b"", "h\u00e9 \u4f60".encode(), b"x" * 200, b" sp ", b"\x00\x01"]


class Chain:
    def __init__(self, n, b):
        self.n, self.kind, self.tag, self.nonce = n, b["kind"], b["tag"], b["nonce"]
        self.steps = {op: w for op, w in b["hist"]}
        self.pw = PWS[n % len(PWS)] if self.kind == "enc" else None
        self.data = f"p{n % 9}:{[0, 1, 64, 127, 128, 129, 1000, 65536, 65537, 70000][n % 10]}"
        self.tc = COMMENTS[n % len(COMMENTS)].encode()
        self.uc = COMMENTS[(n * 7 + 3) % len(COMMENTS)].encode()
        self.pk = self.sk = self.sig = None
        self.dead = None


def chains(ctx, behs):
    """carries the histories out, step by step; what one implementation does not take from the other ends one"""
    cs = [Chain(n, b) for n, b in enumerate(behs)]
    runs, refused = [], []

    def here(name, op, f):
        """f(script, chain) -> ids of events whose result is wanted"""
        out = Scripts(f"{name}", 24, need=NEED, profiles=("release",))
        want = []
        for c in cs:
            if c.dead is None and c.steps.get(op) == "here":
                want.append((c, f(out.get(), c)))
        if want:
            r = ctx.run(out)
            runs.extend(r)
            by = {e["id"]: e for _, _, evs in r for e in evs}
            for c, ids in want:
                yield c, [by.get(i, {"res": "none"}) for i in ids]

    def take(c, e, field):
        v = e.get(field)
        if e.get("res") != "ok" or not v:
            c.dead = f"here: {e.get('op')} failed"
            return None
        return bytes.fromhex(v)

    def there(op, f):
        for c in cs:
            if c.dead is None and c.steps.get(op) == "there":
                try:
                    f(c)
                except ref.Reject as e:
                    c.dead = f"there: {op}: {e}"
                    refused.append(c)
                except UnicodeDecodeError:
                    c.dead = f"there: {op}"
                    refused.append(c)
    # ---- generating
    def g(s, c):
        s.op("rng", mode=f"seed:{ctx.seed * 1000 + c.n}")
        w = dict(pkto="p", skto="k", kind=c.kind, pw=c.pw)
        if c.n % 3 == 2:
            i = s.op("genw", pkwto="pt", skwto="st", comment=c.uc if c.kind == "enc" else None, **w)
            return [("w", i), ]
        i = s.op("gen", **w)
        a = s.op("pk_store", pk="p", carrier=("box", "boxinto", "boxbytes")[c.n % 3], to="pt")
        b = s.op("sk_store", sk="k", carrier=("box", "boxinto", "boxbytes")[c.n // 3 % 3], comment=c.uc if c.n % 4 else None, to="st")
        return [("s", a), ("s", b)]

    def g2(s, c):
        r = g(s, c)
        c.how = r[0][0]
        return [i for _, i in r]
    for c, evs in here("gen", "gen", g2):
        if c.how == "w":
            c.pk, c.sk = take(c, evs[0], "pkw"), take(c, evs[0], "skw")
        else:
            c.pk, c.sk = take(c, evs[0], "outb"), take(c, evs[1], "outb")

    def gt(c):
        k = mkkey(ctx, f"chain{c.n}")
        c.key = k
        salt = hashlib.sha512(b"chain%d" % c.n).digest()[:32]
        par = [dict(ops=DEFOPS, mem=DEFMEM), LOW, dict(ops=524288, mem=16777216), dict(ops=32768, mem=1 << 20)][c.n % 4] if c.kind == "enc" else {}
        c.sk = k.sk_text(comment=c.uc, pw=c.pw, salt=salt, **par)
        c.pk = k.pk_text(None if c.n % 2 else b"any text")
    there("gen", gt)

    def sk_in(s, c, to="k"):
        if c.kind == "plain" and c.sk[:2] == b"Ed":
            s.op("sk_load", carrier="bytes", in_=c.sk, to=to)
        elif c.kind == "plain":
            s.op("sk_load", carrier=("ubox", "uboxfrom")[c.n % 2], in_=c.sk, to=to)
        else:
            s.op("sk_load", carrier=("box", "boxfrom", "file")[c.n % 3], in_=c.sk, pw=c.pw, to=to)

    def pk_in(s, c, to="p"):
        if c.pk[:2] == b"Ed":
            load_pk(s, to, c.pk)
        else:
            s.op("pk_load", carrier=("box", "boxfrom", "file")[c.n % 3], in_=c.pk, to=to)

    # ---- opening and storing again
    def rs(s, c):
        sk_in(s, c)
        s.op("pk_from_sk", sk="k", to="p")
        ids = [s.op("pk_store", pk="p", carrier="box", to="pt")]
        if c.kind == "plain":
            ids.append(s.op("sk_store", sk="k", carrier="box", comment=c.tc, to="st"))
        else:
            # sealed keys are stored again as they are
            b = ref.base64.b64decode(c.sk.split(b"\n")[1])
            s.op("sk_load", carrier="bytes", in_=b, to="k")
            ids.append(s.op("sk_store", sk="k", carrier="box", comment=c.tc, to="st"))
        return ids
    for c, evs in here("restore", "restore", rs):
        c.pk, c.sk = take(c, evs[0], "outb"), take(c, evs[1], "outb")

    def rt(c):
        k = ref.read_sk(c.sk, c.pw)
        if c.steps["gen"] == "here":
            pk = ref.read_pk(c.pk) if c.pk[:2] != b"Ed" else (c.pk[2:10], c.pk[10:])
            ref._need(pk == (k.keynum, k.pub), "public key")
        c.sk = k.sk_text(comment=c.tc, pw=c.pw, salt=hashlib.sha512(b"re%d" % c.n).digest()[:32], **(LOW if c.kind == "enc" else {}))
        c.pk = k.pk_text()
    there("restore", rt)

    # ---- signing
    def sg(s, c):
        sk_in(s, c)
        pk_in(s, c)
        s.op("sign", sk="k", pk="p" if c.n % 2 else None, data=c.data, tc=c.tc, uc=c.uc, to="g")
        return [s.op("sig_store", sig="g", carrier=("string", "into", "from", "bytes")[c.n % 4], to="t")]
    for c, evs in here("sign", "sign", sg):
        c.sig = take(c, evs[0], "outb")

    def st(c):
        k = ref.read_sk(c.sk, c.pw)
        nonce = None if c.nonce == "det" else int.from_bytes(hashlib.sha512(b"n%d" % c.n).digest(), "little")
        m = refmade(k, ref.expand(c.data), tc=c.tc, uc=c.uc, legacy=c.tag == "legacy", nonce=nonce, gnonce=nonce and nonce + 1)
        c.sig = ref.sig_text(m.bones, m.tc, m.gsig, m.uc)
    there("sign", st)

    # ---- storing the signature again
    def rv(s, c):
        s.op("sig_load", carrier=("string", "file", "from")[c.n % 3], in_=c.sig, to="g")
        return [s.op("sig_store", sig="g", carrier=("string", "into", "from", "bytes")[c.n % 4], to="t")]
    for c, evs in here("resave", "resave", rv):
        c.sig = take(c, evs[0], "outb")

    def rvt(c):
        b, tc, g_, uc = ref.read_sig(c.sig)
        c.sig = ref.sig_text(b, tc, g_, uc)
    there("resave", rvt)

    # ---- verifying
    def vf(s, c):
        pk_in(s, c)
        s.op("sig_load", carrier=("string", "file", "from")[c.n % 3], in_=c.sig, to="g")
        return [s.op("verify", pk="p", sig="g", data=c.data, quiet=c.n % 2, output=c.n % 3 == 0, legacy=c.tag == "legacy" or c.n % 2 == 0, meta={"model": True})]
    done = sum(1 for c, evs in here("verify", "verify", vf) if evs[0].get("res") == "ok")

    def vt(c):
        pk = ref.read_pk(c.pk) if c.pk[:2] != b"Ed" and (c.steps["gen"] == "here" or "restore" in c.steps) else \
            ((c.pk[2:10], c.pk[10:]) if c.pk[:2] == b"Ed" else (c.key.keynum, c.key.pub))
        ref.check_sig(pk, ref.read_sig(c.sig), ref.expand(c.data))
    there("verify", vt)
    ended = [c for c in cs if c.dead]
    log(f"histories: {len(cs)}, of which {len(ended)} did not get to their end" + "".join(f"; {c.n}: {c.dead}" for c in ended[:5]))
    return cs, runs, refused


def check(ctx):
    ctx.prepare()
    q = ctx.quick
    behs = ctx.model("Interop", constants=' Deviation = "none"\n Emit = TRUE', invariants=["Interoperates", "AloneFine", "Printed"])
    for a in (ASPECTS[::3] if q else ASPECTS):
        ctx.model("Interop", constants=f' Deviation = "{a}"\n Emit = FALSE', invariants=["AloneFine"], expect="Interoperates", label=f"Interop {a} (must fail)", workers=2)
    ctx.model("Interop", constants=' Deviation = "mask"\n Emit = FALSE', invariants=["AloneFine"], label="Interop mask, alone")
    prims.model(ctx)
    cs, runs, refused = chains(ctx, behs * (1 if q else 8))
    judge_runs(ctx, runs)
    if refused and not ctx.rejects:
        raise ToolError("an independent implementation refuses what the specification accepts: " + "; ".join(f"{c.n} {c.dead}" for c in refused[:5]))
    # ---- everything produced here, with every comment
    out = Scripts("made", 300, need=NEED, profiles=("dev", "release"))
    ks = [mkkey(ctx, f"i{n}") for n in range(4)] + [mkkey(ctx, "id0", keynum=bytes(8)), mkkey(ctx, "id1", keynum=b"\0" * 7 + b"\1"), mkkey(ctx, "idf", keynum=b"\xff" * 8), mkkey(ctx, "idz", keynum=b"\1" + bytes(7)),
                                                 mkkey(ctx, "ida", keynum=bytes(range(8))), mkkey(ctx, "idA", keynum=b"\xab\xcd\xef\0\x0a\xbc\xde\xf0")]
    for n, k in enumerate(ks):
        s = out.get()
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="k")
        load_pk(s, "p", k.pk)
        for c in ("bytes", "b64", "box", "boxinto", "boxbytes"):
            s.op("pk_store", pk="p", carrier=c, to="t")
            s.op("sk_store", sk="k", carrier=("bytes", "box", "boxinto", "boxbytes")[n % 4], comment=(None, b"c")[n % 2], to="t2")
        s.op("pk_from_sk", sk="k", to="p2")
        s.op("pk_store", pk="p2", carrier="box", to="t")
    for n, c in enumerate(COMMENTS):
        k = ks[n % len(ks)]
        s = out.get()
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="k")
        load_pk(s, "p", k.pk)
        for tc, uc in ((c, "u"), ("t", c), (c, None), (None, c)):
            s.op("sign", sk="k", pk="p", data=f"p{n}:{n * 29}", tc=None if tc is None else tc.encode(), uc=None if uc is None else uc.encode(), to="g")
            for carrier in ("string", "into", "from", "bytes", "bones"):
                s.op("sig_store", sig="g", carrier=carrier, to="t")
        s.op("sk_store", sk="k", carrier="box", comment=c.encode(), to="t")
        s.op("sk_load", carrier="ubox", inreg="t", to="k2")
    for n in LENS_Q if q else LENS_T:
        s = out.get()
        s.op("sk_load", carrier="bytes", in_=ks[n % 10].sk(), to="k")
        s.op("sign", sk="k", data=f"p1:{n}", tc=b"t", to="g")
        s.op("sig_store", sig="g", carrier="string", to="t")
    # every length up to several hash blocks, of what goes into each hash
    top = 300 if q else 1100
    hs = Scripts("sweephere", 100, need=NEED, profiles=("dev", "release"), pre=lambda s: (s.op("sk_load", carrier="bytes", in_=ks[1].sk(), to="k"), load_pk(s, "p", ks[1].pk)))
    for n in range(top):
        s = hs.get()
        s.op("sign", sk="k", pk="p" if n % 2 else None, data=f"p3:{n}", tc=b"c" * n, uc=b"u" * (n % 7), to="g")
    # ---- everything made elsewhere
    sw = Scripts("sweep", 300, need=NEED, profiles=("dev", "release"), pre=lambda s: load_pk(s, "p", ks[0].pk))
    for n in range(top):
        s = sw.get()
        m = refmade(ks[0], ref.expand(f"p3:{n}"), tc=b"d" * (top - 1 - n), legacy=True)
        load_sig(s, "g", m.bones, m.tc, m.gsig)
        s.op("verify", pk="p", sig="g", data=f"p3:{n}", quiet=1, output=0, legacy=1)
    el = Scripts("else", 300, need=NEED, profiles=("dev", "release"))
    for n, ln in enumerate((LENS_Q if q else LENS_T) * 2):
        k = ks[n % len(ks)]
        s = el.get()
        load_pk(s, "p", k.pk, ("bytes", "b64", "box", "boxfrom", "file")[n % 5])
        for legacy in (False, True):
            for nonce in (None, 1, 2, ref.L - 1, int.from_bytes(ref.sha512(b"%d" % n), "little")):
                tc = COMMENTS[(n * 5 + legacy) % len(COMMENTS)].encode()
                m = refmade(k, ref.expand(f"p{n}:{ln}"), tc=tc, uc=COMMENTS[(n * 3) % len(COMMENTS)].encode(), legacy=legacy, nonce=nonce, gnonce=None if n % 2 else nonce)
                load_sig(s, "g", m.bones, m.tc, m.gsig, m.uc, carrier=("string", "file", "from")[n % 3])
                s.op("verify", pk="p", sig="g", data=f"p{n}:{ln}", quiet=n % 2, output=0, legacy=1)
                load_sig(s, "b", m.bones)
                s.op("verify", pk="p", sig="b", data=f"p{n}:{ln}", quiet=n % 2, output=0, legacy=1)
                if not legacy:
                    s.op("verify", pk="p", sig="g", data=f"p{n}:{ln}", quiet=1, output=1, legacy=0)
    # keys and nonces that no seed leads to, but that nobody can tell
    for a in (1, 2, 3, 8, ref.L - 1, ref.L - 2, (ref.L + 1) // 2, 2**252, 2**128 - 1):
        pub = ref.enc(ref.mulB(a))
        s = el.get()
        load_pk(s, "p", b"Ed" + b"extreme!" + pub)
        for i, nn in enumerate((1, 2, 7, ref.L - 1, ref.L - 8, 2**251, 2**252 - 1, 0x0f0f0f0f << 200, 2**252 - 2**100)):
            d = f"p{i}:{i * 40}"
            R = ref.enc(ref.mulB(nn))
            for alg, msg in ((b"ED", ref.blake2b(ref.expand(d))), (b"Ed", ref.expand(d))):
                hh = int.from_bytes(ref.sha512(R, pub, msg), "little") % ref.L
                load_sig(s, "g", alg + b"extreme!" + R + ((nn + hh * a) % ref.L).to_bytes(32, "little"))
                s.op("verify", pk="p", sig="g", data=d, quiet=1, output=0, legacy=1)
    # what the reference programs write around these fields
    k = ks[0]
    for n, uc in enumerate([b"signature from minisign secret key", b"signature from rsign secret key", b"verify with minisign.pub"]):
        s = el.get()
        m = refmade(k, b"hello", tc=b"timestamp:1712345678\tfile:hello.txt\thashed", uc=uc, legacy=n == 1)
        load_pk(s, "p", k.pk)
        load_sig(s, "g", m.bones, m.tc, m.gsig, m.uc)
        s.op("verify", pk="p", sig="g", data="h68656c6c6f", quiet=0, output=1, legacy=1)
    enc = Scripts("elseenc", 30, need=NEED, profiles=("release",))
    pars = [(0, 0), (32768, 1 << 20), (524288, 16777216), (DEFOPS, DEFMEM), (DEFOPS, 16777216), (131072, 1 << 22), (1 << 21, 1 << 26)] + ([] if q else [(1 << 22, 1 << 27), (1 << 24, 1 << 29), (MAXOPS, MAXMEM)])
    for n, (o, m) in enumerate(pars):
        for j, pw in enumerate(PWS if o < DEFOPS and m < DEFMEM else PWS[:2]):
            k = ks[(n + j) % len(ks)]
            s = enc.get()
            t = ref.sk_text(k.sk(pw=pw, salt=ref.sha512(b"%d.%d" % (n, j))[:32], ops=o, mem=m), (b"minisign encrypted secret key", b"rsign encrypted secret key", b"")[j % 3])
            if not ref_ok(o, m):
                continue
            s.op("sk_load", carrier=("box", "boxfrom", "file")[j % 3], in_=t, pw=pw, to="k")
            s.op("pk_from_sk", sk="k", to="p")
            s.op("sign", sk="k", pk="p", data="p1:100", tc=b"t", to="g")
            s.op("verify", pk="p", sig="g", data="p1:100", **flags(0))
    plain = Scripts("elseplain", 200, need=NEED, profiles=("dev",))
    for n, k in enumerate(ks):
        for salt, o, m in ((bytes(32), 0, 0), (b"\xff" * 32, DEFOPS, DEFMEM), (bytes(range(32)), 2**64 - 1, 2**64 - 1)):
            s = plain.get()
            s.op("sk_load", carrier=("ubox", "uboxfrom")[n % 2], in_=ref.sk_text(k.sk(salt=salt, ops=o, mem=m), b"minisign secret key"), to="k")
            s.op("pk_from_sk", sk="k", to="p")
            s.op("sign", sk="k", pk="p", data="p1:100", tc=b"t", to="g")
    # ---- key pairs generated here
    gn = Scripts("gen", 20, need=NEED, profiles=("release",))
    for n in range(40 if q else 600):
        s = gn.get()
        s.op("rng", mode=f"seed:{ctx.seed * 997 + n}" if n % 5 else "real")
        enc_ = n % 5 < 2
        c = COMMENTS[n % len(COMMENTS)].encode()
        if n % 2:
            s.op("gen", kind="enc" if enc_ else "plain", pw=PWS[n % len(PWS)] if enc_ else None, pkto="p", skto="k")
            s.op("pk_store", pk="p", carrier="box", to="t")
            s.op("sk_store", sk="k", carrier="box", comment=c if n % 4 == 1 else None, to="t2")
        else:
            s.op("genw", kind="enc" if enc_ else "plain", pw=PWS[n % len(PWS)] if enc_ else None, comment=c if enc_ and n % 4 else None, pkto="p", skto="k")
        s.op("sign", sk="k", pk="p", data="h6d", to="g", need=[] if enc_ else NEED)
    return standard(ctx, huge(ctx, own=False, need=NEED), out, hs, sw, el, enc, plain, gn,
                    note="Interop.tla model checked (every deviation of one implementation shows in some history) and every history carried out between the real library and an independent implementation; everything produced is compared byte for byte by TLC, everything made elsewhere must be accepted",
                    extra={"histories": len(cs)})


def ref_ok(o, m):
    """scrypt can be computed for these limits"""
    n, r, p = ref.pick(o, m)
    return n >= 1 and p >= 1 and n < 16 * r
