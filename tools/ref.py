"""Reference artefacts, made without the code under test: the concretiser of symbolic scenarios.
Nothing here judges an outcome; judging is done by TLC (spec/Judge.tla) with the Java oracle."""
import base64
import functools
import hashlib

P = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, P - 2, P) % P
I = pow(2, (P - 1) // 4, P)
BY = 4 * pow(5, P - 2, P) % P


def _xrec(y, sign):
    w = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    x = pow(w, (P + 3) // 8, P)
    if (x * x - w) % P:
        x = x * I % P
    if (x * x - w) % P:
        return None
    if x & 1 != sign:
        x = (P - x) % P
    return x


BX = _xrec(BY, 0)
B = (BX, BY, 1, BX * BY % P)
O = (0, 1, 1, 0)


def add(p, q):
    a = (p[1] - p[0]) * (q[1] - q[0]) % P
    b = (p[1] + p[0]) * (q[1] + q[0]) % P
    c = 2 * p[3] * q[3] * D % P
    d = 2 * p[2] * q[2] % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return (e * f % P, g * h % P, f * g % P, e * h % P)


def mul(s, p):
    r = O
    while s:
        if s & 1:
            r = add(r, p)
        p = add(p, p)
        s >>= 1
    return r


_BT = []


def mulB(s):
    if not _BT:
        q = B
        for _ in range(256):
            _BT.append(q)
            q = add(q, q)
    r = O
    i = 0
    while s:
        if s & 1:
            r = add(r, _BT[i])
        s >>= 1
        i += 1
    return r


def enc(p):
    z = pow(p[2], P - 2, P)
    x, y = p[0] * z % P, p[1] * z % P
    return (y | ((x & 1) << 255)).to_bytes(32, "little")


def dec(b):
    y = int.from_bytes(b, "little")
    s = y >> 255
    y &= (1 << 255) - 1
    x = _xrec(y % P, s)
    return None if x is None else (x, y % P, 1, x * y % P)


def sha512(*a):
    return hashlib.sha512(b"".join(a)).digest()


def clamp(seed):
    h = sha512(seed)
    a = int.from_bytes(h[:32], "little")
    return a & ((1 << 254) - 8) | (1 << 254), h[32:]


def ed_pub(seed):
    return enc(mulB(clamp(seed)[0]))


def ed_sign(seed, msg, nonce=None, pub=None):
    a, prefix = clamp(seed)
    pub = pub or enc(mulB(a))
    r = (int.from_bytes(sha512(prefix, msg), "little") if nonce is None else nonce) % L
    R = enc(mulB(r))
    h = int.from_bytes(sha512(R, pub, msg), "little") % L
    return R + ((r + h * a) % L).to_bytes(32, "little")


def ed_verify(pub, msg, sig):
    """used by the generators only, to know what they made"""
    s = int.from_bytes(sig[32:], "little")
    a = dec(pub)
    if s >= L or a is None:
        return False
    h = int.from_bytes(sha512(sig[:32], pub, msg), "little") % L
    na = ((P - a[0]) % P, a[1], a[2], (P - a[3]) % P)
    return enc(add(mulB(s), mul(h, na))) == sig[:32]


def blake2b(data, n=64):
    return hashlib.blake2b(data, digest_size=n).digest()


def pick(ops, mem):
    """libsodium's pickparams"""
    ops = max(32768, ops)
    r = 8
    if ops < mem // 32:
        p, maxn = 1, ops // (r * 4)
        n = 1
        while n < 63 and not (1 << n) > maxn // 2:
            n += 1
    else:
        maxn = mem // (r * 128)
        n = 1
        while n < 63 and not (1 << n) > maxn // 2:
            n += 1
        p = min((ops // 4) // (1 << n), 0x3FFFFFFF) // r
    return n, r, p


def scrypt(pw, salt, ops, mem, n=104):
    return _scrypt(pw, salt, *pick(ops, mem), n)


@functools.lru_cache(maxsize=20000)
def _scrypt(pw, salt, ln, r, p, n):
    return hashlib.scrypt(pw, salt=salt, n=1 << ln, r=r, p=p, maxmem=2**31 - 1, dklen=n)


def b64(b):
    return base64.b64encode(b)


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


class Key:
    """a key pair of an independent implementation"""

    def __init__(self, seed, keynum):
        self.seed, self.keynum = seed, keynum
        self.pub = ed_pub(seed)

    @property
    def pk(self):
        return b"Ed" + self.keynum + self.pub

    def pk_text(self, comment=None):
        c = comment if comment is not None else b"minisign public key: %016X" % int.from_bytes(self.keynum, "little")
        return b"untrusted comment: " + c + b"\n" + b64(self.pk) + b"\n"

    @property
    def sk64(self):
        return self.seed + self.pub

    def chk(self, alg=b"Ed"):
        return blake2b(alg + self.keynum + self.sk64, 32)

    def core(self):
        return self.keynum + self.sk64 + self.chk()

    def sk(self, pw=None, salt=bytes(32), ops=0, mem=0):
        """158 bytes; plain if pw is None"""
        lim = ops.to_bytes(8, "little") + mem.to_bytes(8, "little")
        if pw is None:
            return b"Ed\0\0B2" + salt + lim + self.core()
        return b"EdScB2" + salt + lim + xor(self.core(), scrypt(pw, salt, ops, mem))

    def sk_text(self, comment=b"secret", **k):
        return sk_text(self.sk(**k), comment)

    def bones(self, data, legacy=False, nonce=None, keynum=None):
        m = data if legacy else blake2b(data)
        return (b"Ed" if legacy else b"ED") + (keynum or self.keynum) + ed_sign(self.seed, m, nonce)

    def box(self, data, tc=b"", uc=b"", legacy=False, nonce=None):
        b = self.bones(data, legacy, nonce)
        return sig_text(b, tc, ed_sign(self.seed, b[10:] + tc), uc)


def sparse(d):
    """`ZB:LEN` and edits, in pieces"""
    parts = d[1:].split("^")
    fill, n = map(int, parts[0].split(":"))
    edits = [(int(e.split(":")[0]), int(e.split(":")[1], 16)) for e in parts[1:]]
    size = 1 << 20
    plain = bytes([fill]) * size
    for p in range(0, n, size):
        m = min(size, n - p)
        b = plain[:m]
        for q, x in edits:
            if p <= q < p + m:
                b = bytearray(b)
                b[q - p] ^= x
        yield b


def bones_sparse(k, d, legacy):
    """a bare signature of more data than fit"""
    if not legacy:
        m = hashlib.blake2b()
        for b in sparse(d):
            m.update(b)
        return b"ED" + k.keynum + ed_sign(k.seed, m.digest())

    def digest(*pre):
        m = hashlib.sha512(b"".join(pre))
        for b in sparse(d):
            m.update(b)
        return int.from_bytes(m.digest(), "little")

    a, prefix = clamp(k.seed)
    r = digest(prefix) % L
    R = enc(mulB(r))
    return b"Ed" + k.keynum + R + ((r + digest(R, k.pub) * a) % L).to_bytes(32, "little")


def sk_text(b, comment=b"secret"):
    return b"untrusted comment: " + comment + b"\n" + b64(b) + b"\n"


def pk_text(b, comment=None):
    c = comment if comment is not None else b"minisign public key: %016X" % int.from_bytes(b[2:10], "little")
    return b"untrusted comment: " + c + b"\n" + b64(b) + b"\n"


def sig_text(bones, tc, gsig, uc=b"", nl=b"\n"):
    return (b"untrusted comment: " + uc + nl + b64(bones) + nl + b"trusted comment: " + tc + nl + b64(gsig) + nl)


def parse_sig(text):
    """the parts of a canonical signature text"""
    l = text.split(b"\n")
    return dict(uc=l[0][19:], bones=base64.b64decode(l[1]), tc=l[2][17:], gsig=base64.b64decode(l[3]))


class Reject(Exception):
    """an independent implementation does not take it"""


def _need(c, what):
    if not c:
        raise Reject(what)


def _lines(text):
    t = text.decode("utf-8")
    _need(t.endswith("\n") and "\r" not in t, "line ends")
    return text.split(b"\n")[:-1]


def _b64d(b, n):
    try:
        d = base64.b64decode(b, validate=True)
    except Exception:
        raise Reject("base64")
    _need(len(d) == n and b64(d) == b, "base64")
    return d


def read_pk(text):
    """(key id, key)"""
    l = _lines(text)
    _need(len(l) == 2 and l[0].startswith(b"untrusted comment: "), "public key text")
    b = _b64d(l[1], 42)
    _need(b[:2] == b"Ed", "public key tag")
    _need(l[0] == b"untrusted comment: minisign public key: %016X" % int.from_bytes(b[2:10], "little"), "public key comment")
    return b[2:10], b[10:]


def read_sk(text, pw):
    """opens a secret key: text, or raw bytes"""
    if text[:2] == b"Ed":
        b = text
        _need(len(b) == 158, "secret key size")
    else:
        l = _lines(text)
        _need(len(l) == 2 and l[0].startswith(b"untrusted comment: "), "secret key text")
        b = _b64d(l[1], 158)
    _need(b[:2] == b"Ed" and b[4:6] == b"B2", "secret key tags")
    salt, ops, mem = b[6:38], int.from_bytes(b[38:46], "little"), int.from_bytes(b[46:54], "little")
    core = b[54:]
    if b[2:4] == b"Sc":
        _need(pw is not None, "password")
        core = xor(core, scrypt(pw, salt, ops, mem))
    else:
        _need(b[2:4] == b"\0\0", "secret key label")
    k = Key(core[8:40], core[:8])
    _need(core[40:72] == k.pub, "public half")
    _need(core[72:] == k.chk(), "checksum")
    return k


def read_sig(text):
    l = _lines(text)
    _need(len(l) == 4 and l[0].startswith(b"untrusted comment: ") and l[2].startswith(b"trusted comment: "), "signature text")
    b, g = _b64d(l[1], 74), _b64d(l[3], 64)
    _need(b[:2] in (b"ED", b"Ed"), "signature tag")
    return b, l[2][17:], g, l[0][19:]


def check_sig(pk, sig, data):
    """an independent verification"""
    (kn, key), (b, tc, g, uc) = pk, sig
    _need(b[2:10] == kn, "key id")
    _need(ed_verify(key, data if b[:2] == b"Ed" else blake2b(data), b[10:]), "signature")
    _need(ed_verify(key, b[10:] + tc, g), "global signature")


def _splitmix(x):
    M = 2**64 - 1
    z = (x + 0x9E3779B97F4A7C15) & M
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M
    return z ^ (z >> 31)


def expand(d):
    """data descriptors, as the driver and the oracle read them"""
    parts = d.split("^")
    v = bytearray()
    for p in parts[0].split("+"):
        if not p:
            continue
        k, r = p[0], p[1:]
        if k == "h":
            v += bytes.fromhex(r)
        elif k == "p":
            s, l = map(int, r.split(":"))
            base = s * 0xD1342543DE82EF95 & (2**64 - 1)
            w = b"".join(_splitmix((base + i) & (2**64 - 1)).to_bytes(8, "little") for i in range((l + 7) // 8))
            v += w[:l]
        elif k == "z":
            b, l = map(int, r.split(":"))
            v += bytes([b]) * l
        else:
            raise ValueError(d)
    for e in parts[1:]:
        p, x = e.split(":")
        v[int(p)] ^= int(x, 16)
    return bytes(v)
