"""C03: the trusted comment is authenticated and bound to its signature."""
import ref
from . import c01
from .common import *


def ver(s, n, d, **kw):
    s.op("verify", pk="p", sig="s", data=d, **dict(dict(quiet=n & 1, output=n >> 1 & 1, legacy=1), **kw))


def edits(c):
    """comments that are not c, but near it"""
    out = []
    for w in (b" ", b"\t", b"\x0b", b"\x0c", b"\0", "\u00a0".encode(), "\u2003".encode(), "\u0085".encode(), b"a", b"\x1c", b"\r", "\u200b".encode(), "\ufeff".encode()):
        out += [c + w, w + c, w + c + w]
        if c.endswith(w):
            out.append(c[:-len(w)])
        if c.startswith(w):
            out.append(c[len(w):])
    out += [c[:-1], c[1:], c + c, c.upper(), c.swapcase(), c.strip(), c.replace(b"\t", b" "), b"", b" ", c[::-1]]
    res = []
    for x in out:
        try:
            x.decode()
        except UnicodeDecodeError:
            continue
        if x != c and b"\n" not in x and not x.endswith(b"\r") and x not in res:
            res.append(x)
    return res


def check(ctx):
    ctx.prepare()
    behs = c01.forge_model(ctx, 1 if ctx.quick else 2)
    groups = c01.forge_scripts(ctx, [b for b in behs if b["att"]["box"]["hastc"]], ["C02"])
    out = Scripts("tc", 500)
    k, k2 = mkkey(ctx, "k1"), mkkey(ctx, "k2")
    data = ref.expand("p1:40")
    d = h(data)
    comments = [b"timestamp:1700000000\tfile:a.txt\thashed", b"", b" ", b"x ", " h\u00e9 ".encode(), b"A" * 63, b"A" * 64, b"A" * 65, b"B" * 127, b"B" * 128,
                b"B" * 129, b"C" * 191, b"C" * 192, b"D" * 255, b"D" * 256, b"D" * 257, b"E" * 1023, b"E" * 1025, b"F" * 5000, b"a\tb", b"a\x00b", "\u2028".encode(), b"trusted comment: x", b"J" * 65536 + b"KL"]
    n = 0
    made, _ = libmade(ctx, [(k, d, c, b"uc") for c in comments], "tc-made")
    for c, lm in zip(comments, made):
        ms = [refmade(k, data, c), refmade(k, data, c, legacy=True)] + ([lm] if lm else [])
        for m in ms if not ctx.quick or len(c) < 70 else ms[::2]:
            s = out.get()
            load_pk(s, "p", k.pk)
            load_sig(s, "s", m.bones, c, m.gsig, m.uc)
            for f in range(4):
                ver(s, f, d)
            es = edits(c)
            for e in es if not ctx.quick or len(c) < 200 else es[::5]:
                n += 1
                load_sig(s, "s", m.bones, e, m.gsig, carrier=("string", "file")[n % 2])
                ver(s, n, d)
            # single characters
            for i in sorted({0, 1, len(c) // 2, len(c) - 2, len(c) - 1, 31, 63, 64, 127, 128, 255} if len(c) > 45 or (ctx.quick and m is not ms[0]) else range(len(c))):
                if 0 <= i < len(c) and c[i] < 128:
                    for x in (1, 2, 32):
                        b = bytes([c[i] ^ x])
                        if b in b"\n\r" or c[i] ^ x > 127:
                            continue
                        n += 1
                        load_sig(s, "s", m.bones, c[:i] + b + c[i + 1:], m.gsig)
                        ver(s, n, d)
            # truncations
            for l in {0, 1, len(c) // 2, len(c) - 1, 64, 128}:
                if 0 <= l < len(c):
                    try:
                        c[:l].decode()
                    except UnicodeDecodeError:
                        continue
                    load_sig(s, "s", m.bones, c[:l], m.gsig)
                    ver(s, n, d)
    # the global signature: every bit, other encodings, other lengths, other keys
    gs = Scripts("gsig", 500)
    c = comments[0]
    for m in [refmade(k, data, c), refmade(k, data, c, legacy=True)]:
        for pos, g in flips(m.gsig, None if not ctx.quick or m.alg == b"ED" else (0, 7)):
            n += 1
            s = gs.get()
            load_pk(s, "p", k.pk)
            load_sig(s, "s", m.bones, c, g)
            ver(s, n, d)
        R, S = m.gsig[:32], int.from_bytes(m.gsig[32:], "little")
        vs = [R + (S + j * ref.L).to_bytes(32, "little") for j in range(1, 15) if S + j * ref.L < 2**256]
        vs += [bytes(64), b"\xff" * 64, m.sig, R + bytes(32), NEUTRAL + bytes(32), R + ref.L.to_bytes(32, "little"), m.gsig[32:] + R, m.gsig[:32] + m.sig[32:], m.sig[:32] + m.gsig[32:]]
        # what the global signature could be over instead
        sg = m.sig
        for msg in (c, sg, c + sg, ref.blake2b(sg + c), sg + b" " + c, sg + c + b"\n", m.bones + c, sg + b"trusted comment: " + c, sg[:32] + c, sg[32:] + c, data + c, ref.blake2b(data) + c, b"",
                    sg + c + bytes(1), sg + c[:-1], sg + c[:32], sg + sg + c, ref.b64(m.bones) + c, m.keynum + c, sg + c.strip() + b" "):
            vs.append(ref.ed_sign(k.seed, msg))
        vs.append(ref.ed_sign(k2.seed, sg + c))
        vs.append(ref.ed_sign(k.seed, sg + c, 1))
        vs.append(ref.ed_sign(k.seed, sg + c, 0))
        for g in vs + [m.gsig[:l] for l in (0, 1, 32, 62, 63)] + [m.gsig + bytes(l) for l in (1, 2, 10, 64)] + [m.gsig + m.gsig, bytes(1) + m.gsig, m.keynum + m.gsig, m.alg + m.keynum + m.gsig]:
            n += 1
            s = gs.get()
            load_pk(s, "p", k.pk)
            load_sig(s, "s", m.bones, c, g)
            ver(s, n, d)
    # transplants: every part from one box into another, same and other keys
    tr = Scripts("transplant", 500)
    kk = ref.Key(k2.seed, k.keynum)
    boxes = []
    data2 = ref.expand("p2:41")
    for key in (k, kk):
        for dd in (data, data2):
            for cc in (b"one", b"two"):
                for leg in (False, True):
                    boxes.append(refmade(key, dd, cc, legacy=leg))
    lm, _ = libmade(ctx, [(k, d, b"one", None), (k, h(data2), b"one", None), (k, d, b"two", None), (kk, d, b"one", None), (k, d, b"one", None)], "tr-made")
    boxes += [x for x in lm if x]
    step = 1 if not ctx.quick else 2
    for i, a in enumerate(boxes):
        for j, b in enumerate(boxes):
            if (i + j) % step and i != j:
                continue
            for bones, tc, g in ((a.bones, b.tc, b.gsig), (a.bones, a.tc, b.gsig), (a.bones, b.tc, a.gsig), (a.alg + a.keynum + b.sig, a.tc, a.gsig)):
                n += 1
                s = tr.get()
                load_pk(s, "p", (k, kk)[n % 2].pk)
                load_sig(s, "s", bones, tc, g)
                ver(s, n, d)
                if n % 3 == 0:
                    load_pk(s, "p", (k, kk)[(n + 1) % 2].pk)
                    ver(s, n, d)
                    ver(s, n, h(data2))
    # data signature altered, global signature untouched / redone
    for pos, b in flips(refmade(k, data, c).sig, (n % 8,)):
        m = refmade(k, data, c)
        s = tr.get()
        load_pk(s, "p", k.pk)
        load_sig(s, "s", m.alg + m.keynum + b, c, m.gsig)
        ver(s, n, d)
    # what is reported and printed; the default comment; nothing invented
    rp = Scripts("report", 300, profiles=("dev", "release"), need=["C02"])
    for i, cc in enumerate([None] * 3 + COMMENTS):
        s = rp.get()
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="k")
        load_pk(s, "p", k.pk)
        s.op("sign", sk="k", data=f"p{i}:{i}", tc=None if cc is None else cc.encode(), uc=b"unt", to="s")
        for f in range(4):
            ver(s, f, f"p{i}:{i}", legacy=f & 1)
        s.op("sig_store", sig="s", carrier=("string", "bytes")[i % 2], to="t")
        s.op("sig_load", carrier=("string", "file", "from")[i % 3], inreg="t", to="s")
        ver(s, 0, f"p{i}:{i}")
        s.op("sig_bones", sig="s", to="s")
        ver(s, 0, f"p{i}:{i}")
        s.op("sig_store", sig="s", carrier="bones", to="t")
        s.op("sig_load", carrier="bones", inreg="t", to="s")
        ver(s, 0, f"p{i}:{i}")
    # the default comment at other times
    for i, t in enumerate([1, 9, 10, 59, 60, 86399, 86400, 999999999, 1000000000, 1699999999, 2147483647, 2147483648, 4294967295, 4294967296, 253402300800, 99999999999]):
        s = rp.get()
        s.op("clock", at=t)
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="k")
        load_pk(s, "p", k.pk)
        for f in range(2):
            s.op("sign", sk="k", data=f"p{i}:{i}", uc=b"u" if f else None, to="s")
            ver(s, 0, f"p{i}:{i}")
            s.op("sig_store", sig="s", carrier="string", to="t")
            s.op("sig_load", carrier="string", inreg="t", to="s")
            ver(s, 0, f"p{i}:{i}")
        s.op("clock", at=0)
    groups += [out, gs, tr, rp]
    return standard(ctx, *groups, note="Forge.tla model checked and replayed; comment, global-signature and transplant alterations; all judged by TLC against Judge.tla")
