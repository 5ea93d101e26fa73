"""Behaviours of Text.tla made concrete."""
import ref
from .common import *

INV = ["RoundTrip", "MoreIgnored", "CrLfSame", "AllNeeded"]
B64ISH = set("SGKXs")
URL = {"+": "-", "/": "_"}


def nopad(b):
    return b.rstrip(b"=")


def noncanon(b):
    """the same bytes, with unused bits of the last character set"""
    A = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    n = nopad(b)
    return n[:-1] + bytes([A[(A.index(n[-1]) & ~1) | 1]]) + b[len(n):] if n != b else b + b"===="


def broken(raw, decoded_ok):
    """almost base64 of raw: none of these is accepted in any field"""
    b = ref.b64(raw)
    mid = len(b) // 2
    out = [b[:mid] + b"!" + b[mid + 1:], b[:mid] + b" " + b[mid:], b[:mid] + b"-" + b[mid + 1:], b[:mid] + b"_" + b[mid + 1:], b[:mid] + b"=" + b[mid + 1:], b + b"=", b + b"====", b"=" + b[1:],
           b[:-1], b[1:], b[:mid] + b"\t" + b[mid + 1:], b[:mid] + "é".encode() + b[mid + 2:], b[:mid] + b"\0" + b[mid + 1:], b"," + b[1:], noncanon(b),
           ref.b64(raw[:-1]), ref.b64(raw + b"\0"), ref.b64(raw + b"\0\0\0"), ref.b64(raw * 2), ref.b64(raw[:-3])]
    if len(nopad(b)) != len(b):
        out += [nopad(b), b[:-1] + b"A", b[:-1] + b"-"]
    return [x for x in out if not decoded_ok(x)]


def valid(x, sizes, tags=None):
    import base64
    try:
        d = base64.b64decode(x, validate=True)
    except Exception:
        return False
    return len(d) in sizes


class Lex:
    def __init__(self, ctx, kind):
        k = mkkey(ctx, "text")
        m = refmade(k, b"m", tc=b"c t")
        self.k, self.kind = k, kind
        m2 = refmade(mkkey(ctx, "text2", keynum=b"\0" * 7 + b"\x80"), b"m", tc=b"c t", legacy=True)
        S = [ref.b64(m.bones), ref.b64(m2.bones), ref.b64(b"ED" + b"\xff" * 72), ref.b64(b"Ed" + bytes(72))]
        G = [ref.b64(m.gsig), ref.b64(bytes(64)), ref.b64(b"\xff" * 64)]
        K = [ref.b64(k.pk), ref.b64(bytes(42)), ref.b64(b"\xff" * 42), ref.b64(b"xx" + k.pk[2:])]
        X = [ref.b64(k.sk()), ref.b64(bytes(158)), ref.b64(k.sk(pw=b"pw", **LOW)), ref.b64(b"\xff" * 158)]
        if kind == "sig":
            s = broken(m.bones, lambda x: valid(x, (64,))) + broken(m.gsig, lambda x: valid(x, (64, 74))) + \
                [ref.b64(t + m.bones[2:]) for t in (b"eD", b"ed", b"E\0", b"DE", b"\0\0", b"Ee", b"EE", b"FD")] + [ref.b64(m.bones[:10]), b"AAAA", b"===="]
            s = [x for x in s if not valid(x, (64,)) and x not in S]
        elif kind == "pk":
            s = [x for x in broken(k.pk, lambda x: valid(x, (42,))) if len(x) != 56 or not valid(x, (42,))]
        else:
            s = [x for x in broken(k.sk(), lambda x: False) if not valid(x, range(158, 400))]
        self.t = {"U": [b"untrusted comment: "], "T": [b"trusted comment: "],
                  "u": [b"Untrusted comment: ", b"untrusted comment", b"untrusted  comment: ", b"comment: ", b"#", b"untrusted comment :", "untrusted comment:\u00a0".encode(), b"untrusted\tcomment: ", b"UNTRUSTED COMMENT: "],
                  "t": [b"Trusted comment: ", b"trusted comment", b"trusted  comment: ", b"TRUSTED comment: ", b"trusted comment :", "trusted comment:\u00a0".encode(), b"trusted\tcomment: ", b"rusted comment: "],
                  "S": S, "G": G, "K": K, "X": X, "s": s,
                  "c": [b"a comment", b"-", "é \U0001f512".encode(), b"a\0b!", b"timestamp:1", b"#" * 200, b"*x\x7f", b"\x1b[31m"],
                  "_": [b" ", b"\t", b"\x0b", b"\x0c", b"  "],
                  "~": ["\u00a0".encode(), "\u2003".encode(), "\u3000".encode(), "\u0085".encode(), "\u2028".encode(), "\u2029".encode(), "\u1680".encode(), "\u202f".encode(), "\u205f".encode()],
                  "B": ["\ufeff".encode(), "\u200b".encode(), "\u180e".encode(), b"\x1c", b"\x00", b"\x1f"],
                  "R": [b"\r"], "N": [b"\n"]}

    def make(self, rng, syms):
        return b"".join(rng.choice(self.t[x]) for x in syms)

    def clean(self, syms):
        """the model speaks about this text"""
        return not any(a in B64ISH and b in B64ISH for a, b in zip(syms, syms[1:]))


def behaviours(ctx, kind, edits, simulate=None):
    return ctx.model("Text", constants=f' Kind = "{kind}"\n MaxEdits = {edits}\n Emit = TRUE', invariants=INV + ["Printed"],
                     workers=1 if simulate else 8, simulate=simulate, label=f"Text {kind}" + (" (random walks)" if simulate else ""))


def select(ctx, behs, n1, n2):
    """all with few edits (n1 times), a sample of the others; accepted and refused in equal parts"""
    seen, few, more = set(), [], {True: [], False: []}
    for b in sorted(behs, key=lambda b: (b["n"], b["text"])):
        k = tuple(b["text"])
        if k in seen:
            continue
        seen.add(k)
        if b["n"] <= 1:
            few += [b] * n1
        else:
            more[b["ok"]].append(b)
    for v in more.values():
        ctx.rng.shuffle(v)
    return few + more[True][:n2 // 2] + more[False][:n2 - n2 // 2]
