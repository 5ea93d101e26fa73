"""What the checks share: keys and artefacts of an independent implementation, artefacts made by the real
library, and the concretisation of abstract artefacts."""
import functools
import hashlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ref
from engine import Script, ToolError, log

MAXOPS, MAXMEM = 33554432, 1073741824
DEFOPS, DEFMEM = 1048576, 33554432

# the cheapest way to the smallest work factor: N = 1024, r = 8, p = 1
LOW = dict(ops=0, mem=1 << 20)

ZERO_PK = bytes(32)
NEUTRAL = b"\1" + bytes(31)
NEUTRAL_NEG = b"\1" + bytes(30) + b"\x80"
NEUTRAL_NC = (ref.P + 1).to_bytes(32, "little")
NEUTRAL_NCN = NEUTRAL_NC[:31] + bytes([NEUTRAL_NC[31] | 0x80])

# comments, each a single line, as they can be given when signing
COMMENTS = ["", "c", " ", "  x", "x  ", " x ", "\t", "\tx\t", "x\u00a0", "\u2003x\u2003", "h\u00e9 \u4f60\u597d \U0001f512",
            "x\x0b", "\x0cx", "x\u0085", "\u0085", "x\u2028y\u2029", "x\x1c", "\x1dx\x1e", "\x1f", "\u3000", "\ufeffx\ufeff", "\u200bx", "a\x00b", "\x7f", "x\x01", "trusted comment: ", "untrusted comment: x", "timestamp:0",
            "timestamp:1700000000\tfile:a.txt\thashed", "A" * 63, "A" * 64, "A" * 65, "B" * 127, "B" * 128, "C" * 191, "C" * 192,
            "D" * 255, "D" * 256, "E" * 1023, "E" * 1024, "F" * 1025, "G" * 8191, "G" * 8193, "\u00e9" * 32, "\u00e9" * 512, "a b" * 40 + " "]

# longer than 16 bits can tell
LONG = ["J" * 65535, "J" * 65536 + "K", "\u00e9" * 35000, " " * 65536 + "x" + " " * 10]

# lengths at the boundaries of hash blocks and of buffers
LENS_Q = [0, 1, 2, 31, 32, 63, 64, 65, 111, 112, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097,
          8191, 8192, 8193, 65535, 65536, 65537, 131071, 131072, 131073]
LENS_T = LENS_Q + [3, 7, 8, 16, 33, 62, 66, 100, 110, 113, 126, 130, 191, 192, 193, 239, 240, 254, 258, 383, 384, 385, 511, 512, 513,
                   2047, 2048, 2049, 16383, 16384, 16385, 32767, 32768, 32769, 196607, 196608, 262143, 262144, 262145,
                   1048575, 1048576, 1048577, 3000000]


def h(b):
    return "h" + b.hex()


@functools.lru_cache(maxsize=None)
def _key(seed, keynum):
    return ref.Key(seed, keynum)


def mkkey(ctx, name, keynum=None):
    d = hashlib.sha512(f"{ctx.seed}/{name}".encode()).digest()
    return _key(d[:32], keynum if keynum is not None else d[32:40])


def load_pk(s, reg, b, carrier="bytes", need=None):
    """b: the 42 bytes"""
    v = {"bytes": b, "b64": ref.b64(b), "box": ref.pk_text(b), "boxfrom": ref.pk_text(b), "file": ref.pk_text(b)}[carrier]
    return s.op("pk_load", carrier=carrier, in_=v, to=reg, need=need)


def load_sig(s, reg, bones, tc=None, gsig=None, uc=b"", carrier=None, need=None, nl=b"\n"):
    if tc is None:
        return s.op("sig_load", carrier="bones", in_=bones, to=reg, need=need)
    return s.op("sig_load", carrier=carrier or "string", in_=ref.sig_text(bones, tc, gsig, uc, nl), to=reg, need=need)


class Made:
    """a signature as bytes"""

    def __init__(self, bones, tc, gsig, uc=b""):
        self.bones, self.tc, self.gsig, self.uc = bones, tc, gsig, uc

    @property
    def alg(self):
        return self.bones[:2]

    @property
    def keynum(self):
        return self.bones[2:10]

    @property
    def sig(self):
        return self.bones[10:]


def refmade(k, data, tc=b"", uc=b"", legacy=False, nonce=None, gnonce=None):
    b = k.bones(data, legacy, nonce)
    return Made(b, tc, ref.ed_sign(k.seed, b[10:] + tc, gnonce), uc)


def libmade(ctx, reqs, name="made", profiles=("dev",)):
    """signatures made by the real library: reqs = [(Key, descriptor, tc or None, uc or None)]; None where it failed"""
    s = Script(name, profiles=profiles)
    s.op("rng", mode=f"seed:{ctx.seed + 77}")
    ids = []
    for n, (k, d, tc, uc) in enumerate(reqs):
        s.op("sk_load", carrier="bytes", in_=k.sk(), to=f"k{n}")
        ids.append(s.op("sign", sk=f"k{n}", data=d, tc=tc, uc=uc, to=f"s{n}"))
        s.op("drop", reg=f"k{n}")
        s.op("drop", reg=f"s{n}")
    runs = ctx.run([s])
    by = {e["id"]: e for e in runs[0][2]}
    out = []
    for i in ids:
        e = by.get(i)
        try:
            p = ref.parse_sig(bytes.fromhex(e["text"]))
            m = Made(p["bones"], p["tc"], p["gsig"], p["uc"])
            out.append(m if len(m.bones) == 74 and len(m.gsig) == 64 else None)
        except Exception:
            out.append(None)
    return out, runs


def judge_runs(ctx, runs, **kw):
    return ctx.judge([(s.bundle, evs) for s, p, evs in runs], **kw)


def signs(s, sk, n, pk="kp", need=("C02",), to="g", **kw):
    """sign in two of the ways there are: without a public key and with one"""
    opts = [dict(), dict(tc=b"t c", uc=b"u c"), dict(tc=b""), dict(uc=b"")]
    data = ["h6d", "h", "p1:1000"]
    s.op("sign", sk=sk, data=data[n % 3], to=to, need=list(need), **opts[n % 4], **kw)
    s.op("sign", sk=sk, pk=pk, data=data[(n + 1) % 3], to=to, need=list(need), **opts[n // 4 % 4], **kw)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def flips(b, bits=None):
    """every single-bit change (or one bit per byte)"""
    for i in range(len(b)):
        for j in range(8):
            if bits is None or j in bits:
                yield (i, j), b[:i] + bytes([b[i] ^ (1 << j)]) + b[i + 1:]


def flags(n):
    return dict(quiet=(n & 1), output=(n >> 1 & 1), legacy=(n >> 2 & 1))


class Scripts(list):
    """scripts split automatically, each with the same preamble"""

    def __init__(self, name, size=400, profiles=("dev",), need=None, pre=None, env=None, cpu=240):
        super().__init__()
        self.name, self.size, self.profiles, self.need, self.pre, self.env, self.cpu = name, size, profiles, need, pre, env, cpu

    def get(self):
        if not self or len(self[-1]) >= self.size:
            s = Script(f"{self.name}{len(self)}", profiles=self.profiles, need=self.need, env=self.env, cpu=self.cpu)
            if self.pre:
                self.pre(s)
            self.append(s)
        return self[-1]


G4 = 1 << 32
M512 = 1 << 29


def huge(ctx, own=True, foreign=True, need=None):
    """more data than lengths kept in 32 bits can tell: pre-hashed from 4 GiB on, legacy from 512 MiB (2^32 bits) on.
    own: signed by the library; foreign: a legacy signature made elsewhere"""
    out = []

    def script(name):
        out.append(Script(f"huge-{name}", profiles=("release",), need=need, cpu=600))
        out[-1].mem = 14        # who reads all data into memory does nothing wrong
        return out[-1]

    k = mkkey(ctx, "huge")
    if own:
        n = G4 + 65553
        cases = {"tail": [f"Z0:{n}", f"Z0:{n}^{G4 + 5}:01", "Z0:65553"]}
        if not ctx.quick:
            cases.update({"cut": [f"Z0:{G4}", f"Z0:{n}^{n - 1}:80"], "mid": [f"Z0:{n}^{(1 << 31) + 5}:01", f"Z0:{n}^{G4}:01"],
                          "more": [f"Z0:{n + G4}", f"Z0:{n + 1}"], "ones": [f"Z255:{n}", f"Z0:{n - 1}"]})
        for c, ds in cases.items():
            s = script(c)
            s.op("rng", mode="seed:77")
            s.op("sk_load", carrier="bytes", in_=k.sk(), to="k", need=[])
            load_pk(s, "p", k.pk, need=[])
            s.op("sign", sk="k", data=f"Z0:{n}", tc=b"huge", to="g")
            for d in ds:
                s.op("verify", pk="p", sig="g", data=d, quiet=1, output=0, legacy=0)
    if foreign:
        lens = [M512 + 17] if ctx.quick else [M512 - 64, M512, M512 + 17, (1 << 31) + 17]
        for n in lens:
            s = script(f"legacy{n}")
            load_pk(s, "p", k.pk, need=[])
            b = ref.bones_sparse(k, f"Z0:{n}", True)
            load_sig(s, "g", b, need=[])
            for d in (f"Z0:{n}", f"Z0:{n}^{n - 3}:01", f"Z0:{n - M512}") if n > M512 else (f"Z0:{n}",):
                s.op("verify", pk="p", sig="g", data=d, quiet=1, output=0, legacy=1)
    return out


def standard(ctx, *groups, profiles=None, note="", extra=None):
    """run, judge, report; long behaviours of the whole library (System.tla) are among what is run"""
    if ctx.prop not in ("C16", "C20", "C21"):
        from . import system
        groups += (system.system(ctx),)
    scripts = [s for g in groups for s in g]
    judge_runs(ctx, ctx.run(scripts, profiles=profiles))
    return ctx.finish(note, extra, scripts)
