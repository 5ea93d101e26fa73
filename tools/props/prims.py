"""Cases for PrimMC.tla: the primitives as TLC takes them, as the specification writes them out, and as published."""
import hashlib
import json
import os
import random

import ref
from .common import *


def edge_keys():
    """points of small order, points with a component of small order, points that are none, encodings that are not canonical"""
    y = 2
    while True:
        p = ref.dec(y.to_bytes(32, "little"))
        if p is not None:
            t = ref.mul(ref.L, p)
            if ref.enc(ref.mul(4, t)) != NEUTRAL:
                break
        y += 1
    small = [ref.mul(i, t) for i in range(8)]
    mixed = [ref.add(ref.mulB(12345), x) for x in small[1:]]
    none = [n.to_bytes(32, "little") for n in range(2, 40) if ref.dec(n.to_bytes(32, "little")) is None][:3]
    high = [n.to_bytes(32, "little") for n in range(ref.P, 2**255)]
    return small, mixed, none, high


def cases(ctx):
    q = ctx.quick
    r = random.Random(ctx.seed)

    def rb(n):
        return bytes(r.randrange(256) for _ in range(n))
    C = []
    lens = [0, 1, 63, 64, 111, 112, 113, 127, 128, 129, 239, 240, 255, 256, 257] + ([] if q else list(range(2, 300, 7)) + [511, 512, 513, 1024])
    for n in lens:
        m = rb(n)
        for o in ((64, 32) if n % 2 else (64,)) if q else (64, 32, 1, 20, 63):
            C.append(dict(f="blake2b", n=o, m=m.hex(), want=hashlib.blake2b(m, digest_size=o).hexdigest()))
        C.append(dict(f="sha512", m=m.hex(), want=hashlib.sha512(m).hexdigest()))
        C.append(dict(f="sha256", m=m.hex(), want=hashlib.sha256(m).hexdigest()))
    C.append(dict(f="blake2b", n=64, m=b"abc".hex(), want="ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923"))
    C.append(dict(f="sha512", m=b"abc".hex(), want="ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"))
    # RFC 7914
    C.append(dict(f="scrypt", pw="", salt="", ln=4, r=1, p=1, n=64, want="77d6576238657b203b19ca42c18a0497f16b4844e3074ae8dfdffa3fede21442fcd0069ded0948f8326a753a0fc81f17e8d3e0fb2e0d3628cf35e20c38d18906"))
    for n, (pw, ln, rr, p, out) in enumerate([(b"", 1, 1, 1, 104), (b"pw", 2, 2, 1, 104), (b"p\0q", 3, 1, 2, 104), (b"x" * 64, 2, 1, 1, 33), (b"x" * 65, 2, 1, 1, 64), (b"pw\0", 2, 2, 1, 104), (b"a", 5, 1, 1, 1)] +
                                             ([] if q else [(rb(i * 9), 1 + i % 5, 1 + i % 3, 1 + i % 2, 104) for i in range(40)] + [(b"pw", 6, 8, 1, 104)])):
        salt = rb(32)
        C.append(dict(f="scrypt", pw=pw.hex(), salt=salt.hex(), ln=ln, r=rr, p=p, n=out, want=hashlib.scrypt(pw, salt=salt, n=2**ln, r=rr, p=p, dklen=out).hex()))
    # RFC 8032, 7.1
    C.append(dict(f="pub", m="9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60", want="d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a"))
    for s in [bytes(32), b"\xff" * 32] + [rb(32) for _ in range(1 if q else 12)]:
        C.append(dict(f="pub", m=s.hex(), want=ref.ed_pub(s).hex()))
    V = [("d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a", "", "e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b", True),
         ("fc51cd8e6218a1a38da47ed00230f0580816ed13ba3303ac5deb911548908025", "af82", "6291d657deec24024827e69c3abe01a30ce548a284743a445e3680d7db5ac3ac18ff9b538d16f290ae67f760984dc6594a7c15e9716ed28dc027beceea1ec40a", True)]

    def v(key, m, sig, want=None):
        V.append((key.hex(), m.hex(), sig.hex(), want))
    seed = rb(32)
    pub, m = ref.ed_pub(seed), rb(100)
    good = ref.ed_sign(seed, m)
    S = int.from_bytes(good[32:], "little")
    v(pub, m, good, True)
    v(pub, m, good[:32] + (S + ref.L).to_bytes(32, "little"), False)
    v(pub, m + b"\0", good, False)
    v(pub, m, good[:31] + bytes([good[31] ^ 128]) + good[32:], False)
    v(pub, m, ref.ed_sign(seed, m, 0), True)
    v(pub, m, ref.ed_sign(seed, m, ref.L - 1), True)
    v(bytes(32), m, good, False)
    v(NEUTRAL, m, good, False)
    v(NEUTRAL_NC, m, NEUTRAL + bytes(32), False)
    small, mixed, none, high = edge_keys()
    for x in (small[1:] if not q else small[1:5:3]):
        key = ref.enc(x)
        for s0 in range(2 if q else 9):
            v(key, m, ref.enc(ref.mulB(s0 + 7)) + (s0 + 7).to_bytes(32, "little"))
    for i, x in enumerate(mixed if not q else mixed[:2]):
        # a signature by the scalar of the component of large order: valid iff the other one vanishes
        key = ref.enc(x)
        for n in range(3 if q else 24):
            R = ref.mulB(n + 3)
            h_ = int.from_bytes(ref.sha512(ref.enc(R), key, m), "little") % ref.L
            v(key, m, ref.enc(R) + ((n + 3 + h_ * 12345) % ref.L).to_bytes(32, "little"))
    for x in none + (high if not q else high[:2] + high[-1:]):
        v(x, m, good)
        v(x[:31] + bytes([x[31] | 128]), m, NEUTRAL + bytes(32))
    for k_, mm, sg, want in V:
        C.append(dict(f="verify", key=k_, m=mm, sig=sg, **({} if want is None else {"want": want})))
    for d in ("h", "h00ff", "p1:9", "z7:130", "p3:200^0:ff^199:1", "h6162+z0:3+p2:17^4:80"):
        C.append(dict(f="data", d=d, m=ref.expand(d).hex()))
    # secrets in texts
    for n in range(46 if q else 230):
        sec = rb(32 if n % 3 else 10)
        p = sec[n % 2: n % 2 + 9]
        w = p[:8]
        le, be = int.from_bytes(w, "little"), int.from_bytes(w, "big")
        alt = [p, p[::-1], p.hex().encode(), p.hex().upper().encode(), ", ".join(map(str, p)).encode(), ref.b64(b"pre" + p + b"x"), p.hex(":").encode(), ", ".join("0x%02X" % x for x in p).encode(),
               "".join("\\x%02x" % x for x in p).encode(), b"%d" % le, b"%d" % be, b"%016x" % le, b"%d" % (le - (le >> 63 << 64)), b"%d" % (be - (be >> 63 << 64)), " ".join(str(x - (x >> 7 << 8)) for x in p).encode(),
               b"[%d, %d]" % (le & 0xffffffff, le >> 32), b"%d;%d" % (be >> 32, be & 0xffffffff), ref.b64(p).replace(b"+", b"-").replace(b"/", b"_"),
               p[:7], sec[:0], p.hex()[:14].encode(), rb(40), b"%d" % (le >> 8)]
        # digits next to the number become part of it
        t = rb(5) + b"<" + alt[n % len(alt)] + b">" + b"xyz"
        C.append(dict(f="reveals", m=t.hex(), secret=sec.hex(), want=n % len(alt) < len(alt) - 5))
    r.shuffle(C)
    return C


def model(ctx):
    f = os.path.join(ctx.work, "prims.ndjson")
    with open(f, "w") as o:
        for c in cases(ctx):
            o.write(json.dumps(c) + "\n")
    ctx.model("PrimMC", constants=f' CaseFile = "{f}"', invariants=["Agree"], workers=8, coverage=False, label="PrimMC: primitives written out, against the oracle and published answers")
