"""C11: texts are loaded exactly when well-formed, and reported faithfully."""
import ref
from . import texts
from .common import *

NEED = ["C11"]
SPACES = [c for c in map(chr, range(0x110000)) if not 0xd800 <= ord(c) < 0xe000 and c.isspace() or ord(c) in (0x200b, 0xfeff, 0x180e, 0x2060, 0x1b, 0x7f, 0, 1, 0x1c, 0x1f)]
TAGS = ["string", "file"]


def lines(t):
    return t.split(b"\n")


def check(ctx):
    ctx.prepare()
    q = ctx.quick
    rng = ctx.rng
    groups = []
    for kind in ("sig", "pk", "sk"):
        lex = texts.Lex(ctx, kind)
        behs = texts.behaviours(ctx, kind, 2)
        sel = texts.select(ctx, behs, 3 if q else 20, (2400 if kind == "sig" else 900) if q else 12000)
        if not q:
            sel += texts.select(ctx, texts.behaviours(ctx, kind, 6, (4000, 8)), 0, 12000)
        out = texts_script = Scripts(f"text-{kind}", 400, need=NEED)
        for n, b in enumerate(sel):
            t = lex.make(rng, b["text"])
            m = {"model": b["ok"]} if lex.clean(b["text"]) else {}
            s = out.get()
            if kind == "sig":
                s.op("sig_load", carrier=("string", "string", "file")[n % 3], in_=t, to="g", meta=m)
                if n % 5 == 0:
                    s.op("sig_store", sig="g", carrier=("string", "into", "bytes")[n % 3], to="o")
                s.op("drop", reg="g")
            elif kind == "pk":
                s.op("pk_load", carrier=("box", "boxfrom", "file", "boxrt")[n % 4], in_=t, to="g", meta=m)
            else:
                s.op("sk_load", carrier=("ubox", "uboxfrom")[n % 2], in_=t, to="g")
        groups.append(out)
    k = mkkey(ctx, "c11")
    m = refmade(k, b"m", tc=b"tc here", uc=b"uc here")
    # every size of every field
    size = Scripts("size", 400, need=NEED)
    for n in list(range(0, 140)) + [148, 158, 222, 255, 256, 257, 300, 1000, 4096, 65536]:
        s = size.get()
        raw = (m.bones * (n // 74 + 1))[:n]
        s.op("sig_load", carrier="string", in_=b"untrusted comment: u\n" + ref.b64(raw) + b"\ntrusted comment: t\n" + ref.b64(m.gsig) + b"\n", to="g")
        s.op("sig_load", carrier="string", in_=b"untrusted comment: u\n" + ref.b64(m.bones) + b"\ntrusted comment: t\n" + ref.b64((m.gsig * (n // 64 + 1))[:n]) + b"\n", to="g")
        s.op("sig_load", carrier="bones", in_=raw, to="g")
        praw = (k.pk * (n // 42 + 1))[:n]
        s.op("pk_load", carrier="box", in_=b"x\n" + ref.b64(praw) + b"\n", to="g")
        s.op("pk_load", carrier="b64", in_=ref.b64(praw), to="g")
        s.op("pk_load", carrier="bytes", in_=praw, to="g")
    # every character at some positions of every base64 field
    chars = Scripts("chars", 500, need=NEED)
    txt, ptxt = ref.sig_text(m.bones, m.tc, m.gsig, m.uc), k.pk_text()
    l, pl = lines(txt), lines(ptxt)
    for c in range(256):
        for li, pos in ((1, 0), (1, 50), (1, 98), (1, 99), (3, 0), (3, 40), (3, 85), (3, 86), (3, 87)):
            if q and (c * 7 + pos + li) % 3 and not chr(c).isspace():
                continue
            x = list(l)
            x[li] = x[li][:pos] + bytes([c]) + x[li][pos + 1:]
            chars.get().op("sig_load", carrier="file" if c >= 128 else TAGS[pos % 2], in_=b"\n".join(x), to="g")
        for pos in (0, 1, 28, 54, 55):
            x = list(pl)
            x[1] = x[1][:pos] + bytes([c]) + x[1][pos + 1:]
            s = chars.get()
            s.op("pk_load", carrier="file" if c >= 128 else "box", in_=b"\n".join(x), to="g")
            if c < 128:
                s.op("pk_load", carrier="b64", in_=x[1], to="g")
    # all values of the unused bits
    A = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    bits = Scripts("bits", 500, need=NEED)
    for c in A:
        x = list(l)
        x[1] = x[1][:98] + bytes([c]) + b"="
        bits.get().op("sig_load", carrier="string", in_=b"\n".join(x), to="g")
        x = list(l)
        x[3] = x[3][:85] + bytes([c]) + b"=="
        bits.get().op("sig_load", carrier="string", in_=b"\n".join(x), to="g")
    # white space of every kind around every field
    sp = Scripts("space", 400, need=NEED)
    for c in SPACES:
        w = c.encode()
        for li in range(4):
            for a, b in ((w, b""), (b"", w), (w + w, b" " + w)):
                x = list(l)
                x[li] = a + x[li] + b
                sp.get().op("sig_load", carrier=TAGS[li % 2], in_=b"\n".join(x), to="g")
        for li in range(2):
            for a, b in ((w, b""), (b"", w)):
                x = list(pl)
                x[li] = a + x[li] + b
                s = sp.get()
                s.op("pk_load", carrier=("box", "file", "boxfrom")[li], in_=b"\n".join(x), to="g")
                s.op("pk_load", carrier="b64", in_=x[1], to="g")
        for i in (0, 20, 50):
            x = list(l)
            x[1] = x[1][:i] + w + x[1][i:]
            sp.get().op("sig_load", carrier="string", in_=b"\n".join(x), to="g")
    # tags and key ids
    tags = Scripts("tags", 500, need=NEED)
    alltags = [bytes([a, b]) for a in range(256) for b in range(256)] if not q else [bytes([a, b]) for a in (0x45, 0x65, 0x44, 0x64, 0) for b in range(256)] + [bytes([a, b]) for b in (0x44, 0x64) for a in range(256)]
    for t in alltags:
        s = tags.get()
        s.op("sig_load", carrier="bones", in_=t + m.bones[2:], to="g")
        if t[0] in (0x45, 0x65, 0) or t[1] in (0x44, 0x64):
            s.op("sig_load", carrier="string", in_=ref.sig_text(t + m.bones[2:], m.tc, m.gsig), to="g")
    for i in range(64 if q else 600):
        kid = rng.randbytes(8) if i > 16 else bytes([i % 2 * 255] * 8) if i < 2 else bytes(j == i % 8 and 0x80 >> i % 8 for j in range(8))
        al = (b"ED", b"Ed")[i % 2]
        s = tags.get()
        s.op("sig_load", carrier=("string", "file")[i % 2], in_=ref.sig_text(al + kid + rng.randbytes(64), rng.choice(COMMENTS).encode(), rng.randbytes(64), rng.choice(COMMENTS).encode(), nl=(b"\n", b"\r\n")[i % 3 == 0]), to="g")
        s.op("sig_store", sig="g", carrier="string", to="o")
        s.op("sig_load", carrier="string", inreg="o", to="g2")
        s.op("pk_load", carrier=("box", "file", "boxrt")[i % 3], in_=ref.pk_text(b"Ed" + kid + rng.randbytes(32), rng.choice(COMMENTS).encode()), to="p")
    # comments
    com = Scripts("comments", 400, need=NEED)
    for c in COMMENTS + ["\r", "x\ry", "\rx", "x\r", "\r\r"]:
        for nl in (b"\n", b"\r\n"):
            for t in (ref.sig_text(m.bones, c.encode(), m.gsig, b"u", nl), ref.sig_text(m.bones, b"t", m.gsig, c.encode(), nl), ref.sig_text(m.bones, c.encode(), m.gsig, c.encode(), nl)[:-len(nl)],
                      ref.sig_text(m.bones, c.encode(), m.gsig, c.encode(), nl) + b"more" + nl + b"lines"):
                com.get().op("sig_load", carrier="string", in_=t, to="g")
            com.get().op("pk_load", carrier="box", in_=c.encode() + nl + ref.b64(k.pk) + nl, to="p")
    for i, c in enumerate(LONG):
        nl = (b"\n", b"\r\n")[i % 2]
        com.get().op("sig_load", carrier="string", in_=ref.sig_text(m.bones, c.encode(), m.gsig, c.encode(), nl), to="g")
        com.get().op("sig_store", sig="g", carrier="string", to="o")
        com.get().op("sig_load", carrier="file", in_=ref.sig_text(m.bones, c.encode(), m.gsig[:-1], c.encode(), nl), to="g")
        com.get().op("pk_load", carrier="box", in_=c.encode() + nl + ref.b64(k.pk) + nl, to="p")
    # files that are not text, and texts at the limits of Unicode, everywhere
    uni = Scripts("unicode", 400, need=NEED)
    enc = k.sk_text(pw=b"pw", salt=bytes(32), **LOW)
    for i, c in enumerate([b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc3", b"\xe9", b"\xff", b"\xfe\xff", b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80",
                           b"\xe2\x82", b"\xf0\x9f\x98", b"x\0\0y\xff", b"\xf4\x8f\xbf\xbf", b"\xef\xbf\xbe", b"\xee\x80\x80", b"\xed\x9f\xbf", b"\xef\xbf\xbd", b"\xf0\x90\x80\x80", b"\xdf\xbf"]):
        ok = True
        try:
            c.decode()
        except UnicodeDecodeError:
            ok = False
        for base, op in ((txt, "sig_load"), (ptxt, "pk_load"), (enc, "sk_load")):
            ls = lines(base)
            for li in range(len(ls)):
                for pos in (0, len(ls[li]) // 2, len(ls[li]), 19):
                    x = list(ls)
                    x[li] = x[li][:pos] + c + x[li][pos:]
                    for car in ("file",) if not ok else ("file", {"sig_load": "string", "pk_load": "box", "sk_load": "box"}[op]):
                        uni.get().op(op, carrier=car, in_=b"\n".join(x), to="g", **({"pw": b"pw"} if op == "sk_load" else {}))
    # what this library wrote itself
    own = Scripts("own", 400, need=NEED)
    for i in range(12 if q else 100):
        s = own.get()
        s.op("rng", mode=f"seed:{ctx.seed + i}")
        s.op("gen", kind="plain", pkto="p", skto="k")
        s.op("pk_store", pk="p", carrier="box", to="o")
        s.op("pk_load", carrier="box", inreg="o", to="p2")
        s.op("sign", sk="k", data=f"p{i}:{i * 13}", tc=rng.choice(COMMENTS).encode(), uc=rng.choice(COMMENTS).encode(), to="g")
        s.op("sig_store", sig="g", carrier="string", to="o")
        s.op("sig_load", carrier="string", inreg="o", to="g2")
    groups += [size, chars, bits, sp, tags, com, uni, own]
    return standard(ctx, *groups, note="Text.tla (grammar over lexical classes, all texts two edits away from a well-formed one) model checked and replayed; systematic field corruption; TLC judges each load against the byte-level grammar of Formats.tla")
