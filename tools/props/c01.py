"""C01: soundness of verification.  Forge.tla (symbolic attacker), its behaviours replayed, and every
single-bit alteration of the bytes."""
import random

import ref
from .common import *


FORGE_INV = ["Unforgeable", "SignedAsData", "CommentBound", "LegacyOnRequest", "LegacyFlagIrrelevant", "DegenerateReject", "HonestAccepted"]


class Concrete:
    """meaning of the terms of Forge.tla in bytes; honest pre-hashed signatures come from the real library
    or from the independent implementation"""

    def __init__(self, ctx, lib):
        self.keys = {"k1": mkkey(ctx, "k1"), "k2": mkkey(ctx, "k2")}
        self.keys["k3"] = mkkey(ctx, "k3", self.keys["k1"].keynum)
        self.ids = {"n1": self.keys["k1"].keynum, "n2": self.keys["k2"].keynum}
        self.tcs = {"c1": b"timestamp:1700000000\tfile:f", "c2": b"another comment", "c1+": b"timestamp:1700000000\tfile:f ", "": b""}
        self.files = {1: ref.expand("p5:333"), 2: ref.expand("p6:100")}
        self.pks = {k: v.pub for k, v in self.keys.items()}
        self.pks.update({"zero": ZERO_PK, "neutral": NEUTRAL, "neutral-": NEUTRAL_NEG})
        self.sigs, self.ok = {}, True
        reqs = [("k1", 1, "c1"), ("k1", 2, "c2"), ("k2", 1, "c1"), ("k3", 1, "c1")]
        if lib:
            m, self.runs = libmade(ctx, [(self.keys[k], h(self.files[f]), self.tcs[c], b"uc") for k, f, c in reqs])
        else:
            m = [refmade(self.keys[k], self.files[f], self.tcs[c]) for k, f, c in reqs]
        for (k, f, c), x in zip(reqs, m):
            if x is None:
                self.ok = False
                continue
            d = ("digest", ("file", f))
            self.sigs[(k, d)] = x.sig
            self.sigs[(k, ("joined", (k, d), c))] = x.gsig
        for t in (("file", 1), ("digest", ("file", 2))):
            k = self.keys["k1"]
            sg = ref.ed_sign(k.seed, self.data(t))
            self.sigs[("k1", t)] = sg
            self.sigs[("k1", ("joined", ("k1", t), "c1"))] = ref.ed_sign(k.seed, sg + self.tcs["c1"])

    @staticmethod
    def term(t):
        if isinstance(t, dict):
            return (t["by"], Concrete.term(t["over"]))
        if isinstance(t, list):
            return tuple(Concrete.term(x) for x in t)
        return t

    def data(self, t):
        if t[0] == "file":
            return self.files[t[1]]
        if t[0] == "digest":
            return ref.blake2b(self.data(t[1]))
        if t[0] == "joined":
            return self.sig(t[1]) + self.tcs[t[2]]
        raise ToolError(f"term {t}")

    def sig(self, t):
        if t[0] == "nobody":
            return bytes(64)
        return self.sigs.get(t)

    def attempt(self, s, n, att, need, model):
        b = att["box"]
        pk = att["pk"]
        sig = self.sig(self.term(b["sig"]))
        gsig = self.sig(self.term(b["gsig"]))
        if sig is None or gsig is None:
            return
        d = self.term(att["data"])
        if d[0] == "joined" and self.sig(d[1]) is None:
            return
        bones = b["alg"].encode() + self.ids[b["keynum"]] + sig
        load_pk(s, "p", b"Ed" + self.ids[pk["keynum"]] + self.pks[pk["key"]], ("bytes", "b64", "box")[n % 3], need)
        if b["hastc"]:
            load_sig(s, "s", bones, self.tcs[b["tc"]], gsig, need=need, carrier=("string", "file")[n // 5 % 2])
        else:
            load_sig(s, "s", bones, need=need)
        f = dict(quiet=n & 1, output=n >> 1 & 1, legacy=att["allow"])
        s.op("verify", pk="p", sig="s", data=h(self.data(d)), need=need,
             meta={"model": att["accepted"]} if model else None, **f)


def forge_model(ctx, emit):
    inv = FORGE_INV
    ctx.model("Forge", constants=f" MaxSign = {1 if ctx.quick else 2}\n Emit = {emit}", invariants=inv, workers=4 if ctx.quick else 8,
              label="Forge: all histories, all attempts", timeout=3000)
    return ctx.model("Forge", spec="ESpec", constants=f" MaxSign = 1\n Emit = {emit}", invariants=inv + ["Printed"],
                     workers=8, label="Forge: attempts after a fixed history", allow_never=True)


def forge_scripts(ctx, behs, need, lib=True):
    out = Scripts("forge-ref", 600, need=need)
    ref_c = Concrete(ctx, False)
    for n, b in enumerate(behs):
        ref_c.attempt(out.get(), n, b["att"], need, True)
    res = [out]
    if lib:
        lib_c = Concrete(ctx, True)
        out2 = Scripts("forge-lib", 600, need=need)
        for n, b in enumerate(behs):
            lib_c.attempt(out2.get(), n + 3, b["att"], need, False)
        res.append(out2)
    return res


def check(ctx):
    ctx.prepare()
    behs = forge_model(ctx, 1 if ctx.quick else 2)
    groups = forge_scripts(ctx, behs, ["C02"])
    groups = [huge(ctx)] + groups + [alterations(ctx), malleability(ctx), lengths(ctx), degenerate(ctx), extremes(ctx), inmemory(ctx)]
    return standard(ctx, *groups, note="Forge.tla model checked; its attempts and all single-bit alterations replayed into the library; "
                    "each outcome judged by TLC against Judge.tla")


def alterations(ctx):
    """every bit of the signature, of the key id, of the public key, of the data"""
    out = Scripts("bits", 500)
    k, k2 = mkkey(ctx, "a1"), mkkey(ctx, "a2")
    data = ref.expand("p1:40")
    lib, _ = libmade(ctx, [(k, h(data), b"tc", b"uc")], "bits-made")
    bases = [(refmade(k, data, b"tc"), "ref"), (refmade(k, data, b"tc", legacy=True), "legacy"), (lib[0], "lib")]
    n = 0
    for m, what in bases:
        if m is None:
            continue
        for form in ("bones", "box"):
            def load(s, bones, form=form, m=m):
                if form == "bones":
                    load_sig(s, "s", bones)
                else:
                    # the global signature is redone, so that only the data signature can be at fault
                    g = m.gsig if bones[10:] == m.sig else ref.ed_sign(k.seed, bones[10:] + m.tc)
                    load_sig(s, "s", bones, m.tc, g)
            step = None if (ctx.quick is False or what == "ref") else (n % 8, (n + 3) % 8)
            for pos, b in flips(m.bones, step):
                s = out.get()
                n += 1
                load_pk(s, "p", k.pk, ("bytes", "b64", "box")[n % 3])
                load(s, b)
                s.op("verify", pk="p", sig="s", data=h(data), **dict(flags(n), legacy=1))
            for pos, b in flips(k.pk, step):
                s = out.get()
                n += 1
                load_pk(s, "p", b, ("bytes", "b64", "box")[n % 3])
                load(s, m.bones)
                s.op("verify", pk="p", sig="s", data=h(data), **dict(flags(n), legacy=1))
            for pos, b in flips(data, step):
                s = out.get()
                n += 1
                load_pk(s, "p", k.pk)
                load(s, m.bones)
                s.op("verify", pk="p", sig="s", data=h(b), **dict(flags(n), legacy=1))
            # key id of the signature and of the public key changed alike: another identity, but the same key;
            # key ids that agree in part
            for a, b in [(0, 0), (0, 1), (7, 7), (3, 3)]:
                s = out.get()
                ka, kb = bytearray(k.keynum), bytearray(k.keynum)
                ka[a] ^= 0x40
                kb[b] ^= 0x40
                load_pk(s, "p", b"Ed" + bytes(ka) + k.pub)
                load(s, m.bones[:2] + bytes(kb) + m.sig)
                s.op("verify", pk="p", sig="s", data=h(data), need=[], **dict(flags(n), legacy=1))
            for kn in (k2.keynum, bytes(8), b"\xff" * 8, k.keynum[::-1], k.keynum[1:] + k.keynum[:1], k.keynum[:4] + k2.keynum[4:], k2.keynum[:4] + k.keynum[4:],
                       k.keynum[:7] + k2.keynum[7:], k2.keynum[:1] + k.keynum[1:]):
                s = out.get()
                load_pk(s, "p", b"Ed" + kn + k.pub)
                load(s, m.bones)
                for f in range(8):
                    s.op("verify", pk="p", sig="s", data=h(data), need=[], **flags(f))
                load_pk(s, "p", k.pk)
                load(s, m.bones[:2] + kn + m.sig)
                for f in range(8):
                    s.op("verify", pk="p", sig="s", data=h(data), need=[], **flags(f))
            # all flags on the good one and on another key's
            s = out.get()
            load_pk(s, "p", k.pk)
            load_pk(s, "p2", b"Ed" + k.keynum + k2.pub)
            load(s, m.bones)
            for f in range(8):
                s.op("verify", pk="p", sig="s", data=h(data), **flags(f))
                s.op("verify", pk="p2", sig="s", data=h(data), **flags(f))
                s.op("verify", pk="p", sig="s", data=h(data[:-1]), **flags(f))
                s.op("verify", pk="p", sig="s", data=h(data + b"\0"), **flags(f))
                s.op("verify", pk="p", sig="s", data="", **flags(f))
    # many random pairs of alterations
    rnd = random.Random(ctx.seed)
    m = bases[0][0]
    for _ in range(300 if ctx.quick else 4000):
        b = bytearray(m.bones)
        p = bytearray(k.pk)
        d = bytearray(data)
        for _ in range(rnd.choice((1, 1, 2, 3))):
            t = rnd.choice((b, b, p, d))
            t[rnd.randrange(len(t))] ^= rnd.choice((1, 128, 255, rnd.randrange(1, 256)))
        s = out.get()
        load_pk(s, "p", bytes(p))
        load_sig(s, "s", bytes(b))
        s.op("verify", pk="p", sig="s", data=h(bytes(d)), **flags(rnd.randrange(8)))
    return out


def malleability(ctx):
    """the same equation, in encodings that are not canonical; parts of valid signatures mixed"""
    out = Scripts("mall", 500)
    k = mkkey(ctx, "a1")
    k2 = ref.Key(mkkey(ctx, "a2").seed, k.keynum)
    ds = [ref.expand("p2:50"), ref.expand("p3:50")]

    def variants(sig, msg, seed):
        R, S = sig[:32], int.from_bytes(sig[32:], "little")
        L = ref.L
        for j in range(1, 16):
            if S + j * L < 2**256:
                yield R + (S + j * L).to_bytes(32, "little")
        yield R + (L - S).to_bytes(32, "little")
        for top in (0x20, 0x40, 0x80, 0xe0):
            yield R + sig[32:63] + bytes([sig[63] | top])
        yield R[:31] + bytes([R[31] ^ 0x80]) + sig[32:]
        yield R + bytes(32)
        yield bytes(64)
        yield R + L.to_bytes(32, "little")
        yield NEUTRAL + bytes(32)
        yield NEUTRAL + L.to_bytes(32, "little")
        yield b"\xff" * 64
        # R in a non-canonical encoding, where there is one (S such that R = neutral)
        yield NEUTRAL_NC + sig[32:]
        yield sig[32:] + R
        yield sig[::-1]

    def nonces():
        yield None
        yield 1
        yield 0          # R is the neutral element: a valid signature still
        yield ref.L - 1
    for legacy in (False, True):
        for d in ds:
            msg = d if legacy else ref.blake2b(d)
            for key in (k, k2):
                for nn in nonces():
                    sig = ref.ed_sign(key.seed, msg, nn)
                    for v in [sig] + list(variants(sig, msg, key.seed)):
                        s = out.get()
                        load_pk(s, "p", k.pk)
                        load_sig(s, "s", (b"Ed" if legacy else b"ED") + k.keynum + v)
                        s.op("verify", pk="p", sig="s", data=h(d), quiet=1, output=0, legacy=1)
    # R of one, S of another
    a = ref.ed_sign(k.seed, ref.blake2b(ds[0]))
    b = ref.ed_sign(k.seed, ref.blake2b(ds[1]))
    c = ref.ed_sign(k2.seed, ref.blake2b(ds[0]))
    for x in (a, b, c):
        for y in (a, b, c):
            for d in ds:
                for kk in (k, k2):
                    s = out.get()
                    load_pk(s, "p", kk.pk)
                    load_sig(s, "s", b"ED" + k.keynum + x[:32] + y[32:])
                    s.op("verify", pk="p", sig="s", data=h(d), **flags(0))
    # what the signature could be over instead
    d = ds[0]
    hh = ref.blake2b(d)
    for msg in (d, hh, ref.blake2b(hh), ref.blake2b(d, 32), ref.sha512(d), hh[:32], hh[:63], hh + b"\0", b"", d + hh, hh + d, bytes(64),
                ref.blake2b(b""), ref.blake2b(d[:-1]), ref.blake2b(d[1:]), ref.blake2b(d + b"\n"), hh[::-1], hh.hex().encode()):
        for alg in (b"ED", b"Ed"):
            s = out.get()
            load_pk(s, "p", k.pk)
            load_sig(s, "s", alg + k.keynum + ref.ed_sign(k.seed, msg))
            for f in range(0, 8, 4):
                s.op("verify", pk="p", sig="s", data=h(d), **flags(f))
    return out


def lengths(ctx):
    """data of every size class, altered where a buffer begins or ends"""
    out = Scripts("len", 300, profiles=("release",))
    k = mkkey(ctx, "a1")
    lens = LENS_Q if ctx.quick else LENS_T
    for n, l in enumerate(lens):
        d = f"p{l + 1}:{l}"
        data = ref.expand(d)
        for legacy in (False, True):
            if legacy and l > 300000:
                continue
            m = refmade(k, data, b"c%d" % l, legacy=legacy)
            s = out.get()
            load_pk(s, "p", k.pk)
            load_sig(s, "s", m.bones, m.tc, m.gsig)
            alts = [d, f"p{l + 1}:{l + 1}", f"{d}+h00", f"h00+{d}", f"p{l + 2}:{l}", f"{d}+{d}"]
            if l:
                alts += [f"p{l + 1}:{l - 1}", f"z0:{l}"]
                pos = {0, l - 1, l // 2} | {p for b in (32, 64, 128, 256, 512, 1024, 4096, 8192, 16384, 65536, 131072, 1048576) for p in (b - 1, b) if p < l}
                pos |= {(l // 128) * 128, (l // 65536) * 65536, (l - 1) // 128 * 128, max(0, l - 65536)}
                alts += [f"{d}^{p}:{x}" for p in sorted(p for p in pos if p < l) for x in ("01", "80")[:1 if ctx.quick and l > 5000 else 2]]
            if l > 1:
                alts += [f"{d}^0:01^{l - 1}:01"]
            for j, a in enumerate(alts):
                s.op("verify", pk="p", sig="s", data=a, **dict(flags(n + j), legacy=1))
    return out


def torsion_points():
    """encodings of the points of small order, canonical or not"""
    pts = set()
    # a point of order 8: L times some point
    y = 2
    while True:
        p = ref.dec(y.to_bytes(32, "little"))
        if p is not None:
            t = ref.mul(ref.L, p)
            if ref.enc(ref.mul(4, t)) not in (NEUTRAL,):
                break
        y += 1
    q = ref.O
    for _ in range(8):
        pts.add(ref.enc(q))
        q = ref.add(q, t)
    more = set()
    for e in pts:
        more.add(e[:31] + bytes([e[31] ^ 0x80]))
        yy = int.from_bytes(e, "little") & (2**255 - 1)
        if yy + ref.P < 2**255:
            b = (yy + ref.P).to_bytes(32, "little")
            more.add(b)
            more.add(b[:31] + bytes([b[31] | 0x80]))
    return sorted(pts | more)


def degenerate(ctx):
    """public keys without secret key: signatures that satisfy the equation all the same"""
    out = Scripts("degen", 500)
    kn = mkkey(ctx, "a1").keynum
    data = ref.expand("p9:64")
    hh = ref.blake2b(data)
    keys = torsion_points() + [NEUTRAL_NCN]
    for pub in keys:
        sigs = [bytes(64), NEUTRAL + bytes(32), pub + bytes(32)]
        # R = [S]B + torsion: for some S the hash makes it valid
        for s0 in range(1, 40 if ctx.quick else 200):
            sigs.append(ref.enc(ref.mulB(s0)) + s0.to_bytes(32, "little"))
        for sg in sigs:
            for alg in (b"ED", b"Ed"):
                s = out.get()
                load_pk(s, "p", b"Ed" + kn + pub)
                if sg == sigs[3] or sg == sigs[1]:
                    load_sig(s, "s", alg + kn + sg, b"tc", sg)
                    s.op("verify", pk="p", sig="s", data=h(data), need=[], quiet=0, output=1, legacy=1)
                load_sig(s, "s", alg + kn + sg)
                s.op("verify", pk="p", sig="s", data=h(data), need=[], quiet=1, output=0, legacy=1)
    return out


def extremes(ctx, need=()):
    """scalars that no signer would meet: under a key of small order anyone can sign with any S, so that the arithmetic
    and the bound on S are seen at their limits"""
    out = Scripts("extreme", 400, profiles=("dev", "release"))
    kn = mkkey(ctx, "a1").keynum
    L, top = ref.L, 1 << 252
    ss = {0, 1, 2, 7, 8, 15, 16, 17, 255, 256, L - 1, L - 2, L - 16, L - 256, L // 2, L // 2 + 1, top, top - 1, top + 1, top - 16}
    for b in (0x01, 0x0f, 0x10, 0x1f, 0x55, 0x77, 0x78, 0x7f, 0x80, 0x88, 0xaa, 0xf0, 0xf7, 0xff):
        ss.add(int.from_bytes(bytes([b]) * 32, "little") % top)
        ss.add(int.from_bytes(bytes([b, 0]) * 16, "little") % top)
        ss.add(int.from_bytes(bytes([0, b]) * 16, "little") % top)
    step = 21 if ctx.quick else 1
    for e in range(0, 252, step):
        ss |= {1 << e, (1 << e) - 1, top - (1 << e), L - (1 << e)}
    keys = [p for p in torsion_points() if int.from_bytes(p, "little") & (2**255 - 1) != 1 and any(p)]
    keys = [p for p in keys if ref.dec(p) is not None and ref.enc(ref.dec(p)) == p]
    n = 0
    for s0 in sorted(x % L for x in ss):
        pub = keys[n % len(keys)]
        n += 1
        R = ref.enc(ref.mulB(s0))
        # until the challenge annuls the key
        for t in range(64):
            data = b"%d" % t
            if int.from_bytes(ref.sha512(R, pub, data), "little") % L % 8 == 0:
                break
        s = out.get()
        load_pk(s, "p", b"Ed" + kn + pub)
        for v in (s0, s0 + L, s0 + 2 * L, s0 + 8 * L, s0 + 15 * L, s0 ^ 1):
            if v < 1 << 256:
                load_sig(s, "s", b"Ed" + kn + R + v.to_bytes(32, "little"))
                s.op("verify", pk="p", sig="s", data=h(data), need=list(need), quiet=1, output=0, legacy=1)
    return out


def inmemory(ctx):
    """boxes just returned by signing, never stored"""
    out = Scripts("mem", 400, profiles=("dev", "release"))
    k = mkkey(ctx, "a1")
    k2 = mkkey(ctx, "a2")
    for n, l in enumerate((0, 1, 33, 128, 5000)):
        s = out.get()
        s.op("rng", mode=f"seed:{n}")
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="k", need=[])
        s.op("sign", sk="k", data=f"p{n}:{l}", tc=b"tc", uc=b"uc", to="s")
        s.op("sig_bones", sig="s", to="b")
        s.op("pk_from_sk", sk="k", to="own")
        pks = [k.pk, k2.pk, b"Ed" + k.keynum + k2.pub, b"Ed" + k2.keynum + k.pub, b"Ed" + k.keynum + ZERO_PK, b"Ed" + k.keynum + NEUTRAL]
        for j, p in enumerate(pks):
            load_pk(s, f"p{j}", p)
        for p in ["own"] + [f"p{j}" for j in range(len(pks))]:
            for d in (f"p{n}:{l}", f"p{n}:{l + 1}", f"p{n + 1}:{l + 1}", ""):
                for sg in ("s", "b"):
                    s.op("verify", pk=p, sig=sg, data=d, **flags(j))
                    j += 1
        s.op("free")
    return out
