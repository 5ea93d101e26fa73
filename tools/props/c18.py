"""C18: outcomes depend only on the arguments, not on earlier or concurrent use."""
import json

import ref
from . import system
from .common import *

NEED = ["C18"]
WRONG = ["memo", "scratch", "sticky", "poison", "pwcache", "alias", "left"]
# the data of each world; the later worlds have values that are easily taken for each other
DATA = [("p1:5000", "p2:5001"), ("p1:70", "p2:64"), ("p1:4096", "p1:4096^4095:1"), ("p1:200", "p1:200^0:80")]
NV = len(DATA)
SAMEID = {2, 3}          # worlds where both keys have the same id
CUT = "r64,e"
LEGKEY = {"pre": False, "leg": True}


class World:
    """the shared values of Hist.tla"""

    def __init__(self, ctx):
        self.kv = [{x: mkkey(ctx, "hist" + x, keynum=b"samesame" if v in SAMEID else None) for x in "AB"} for v in range(NV)]
        self.pw = b"hist pw"
        self.wrongs = [b"hist pwx", b"hist pv", b"iist pw", b"hist p", b"", b"Hist pw", b"\0hist pw", b" hist pw", b"hist pw ", b"hist  pw", b"h\xc3\xadst p"]
        self.salt = ref.sha512(b"hist")[:32]
        self.data = [{"d": a, "e": b} for a, b in DATA]
        self.enc = [k["A"].sk(pw=self.pw, salt=self.salt, **LOW) for k in self.kv]
        self.plain = [k["B"].sk(salt=self.salt) for k in self.kv]
        self.sk = []
        for v, k in enumerate(self.kv):
            bad = bytearray(k["A"].sk())
            bad[70] ^= 4
            self.sk.append({"A": k["A"].sk(), "B": k["B"].sk(), "sealed": self.enc[v], "damaged": bytes(bad)})
        self.sig = {}
        for by in "AB":
            for tag in ("pre", "leg"):
                for v in range(NV):
                    m = refmade(self.kv[v][by], ref.expand(self.data[v]["d"]), tc=b"hist comment", uc=b"u", legacy=LEGKEY[tag])
                    self.sig[by, tag, v] = m
        m = self.sig["A", "pre", 0]
        self.texts = {("sig", True): ref.sig_text(m.bones, m.tc, m.gsig, m.uc), ("sig", False): ref.sig_text(m.bones, m.tc, m.gsig[:-1], m.uc),
                      ("pk", True): self.kv[0]["B"].pk_text(), ("pk", False): b"untrusted comment: x\n" + ref.b64(self.kv[0]["B"].pk)[:-2] + b"\n",
                      ("sk", True): ref.sk_text(self.plain[0]), ("sk", False): ref.sk_text(self.sk[0]["damaged"])}

    def signame(self, s, v):
        return f"s{s['by']}{s['tag']}{s['flaw']}{v}"

    def load(self, s, need, v):
        """brings the named shared values into a script"""
        for n in sorted(need):
            if n.startswith("pk"):
                load_pk(s, n, self.kv[v][n[2]].pk)
            elif n.startswith("sk"):
                s.op("sk_load", carrier="bytes", in_=self.sk[v][n[2:]], to=n, need=NEED)
            elif n.startswith("s"):
                m = self.sig[n[1], n[2:5], int(n[-1])]
                flaw = n[5:-1]
                if flaw == "bare":
                    load_sig(s, n, m.bones, need=NEED)
                elif flaw == "sig":
                    b = m.bones[:30] + bytes([m.bones[30] ^ 1]) + m.bones[31:]
                    load_sig(s, n, b, m.tc, m.gsig, m.uc, need=NEED)
                elif flaw == "comment":
                    load_sig(s, n, m.bones, m.tc + b"!", m.gsig, m.uc, need=NEED)
                else:
                    load_sig(s, n, m.bones, m.tc, m.gsig, m.uc, need=NEED)

    ALL = {"pkA", "pkB", "skA", "skB", "sksealed", "skdamaged"}

    def everything(self, v):
        return self.ALL | {f"s{b}{t}{f}{v}" for b in "AB" for t in ("pre", "leg") for f in ("no", "sig", "comment", "bare")}


def emit(w, s, h, v, extra, threaded):
    """one call of a history; returns (key, what it needs) for the call in isolation"""
    c, r = h["call"], h["real"]
    meta = {"model": h["out"] == "ok"}
    op = c["op"]
    kw = dict(extra)
    if op == "verify":
        own = c["sig"]["by"] == "own"
        if own and r["sig"]["by"] == "none":
            return None
        name = "own" if own else w.signame(r["sig"], v)
        out = 0 if threaded else int((r["data"] == "d") ^ (c["pk"] == "A"))
        key = ("verify", c["pk"], ("own", r["sig"]["by"], r["sig"]["over"]) if own else name, c["data"], c["legacy"], c["cut"], out, v)
        s.op("verify", pk="pk" + c["pk"], sig=name, data=w.data[v][c["data"]], legacy=c["legacy"], quiet=1, output=out, reader=CUT if c["cut"] else "*r1000", grp=json.dumps(key), gp="C18", need=NEED, meta=meta, **kw)
    elif op == "sign":
        key = ("sign", c["sk"], c["pk"], c["data"], c["cut"], v)
        rd = CUT if c["cut"] else "*r1000"
        s.op("drop", reg="own")
        s.op("sign", sk="sk" + c["sk"], pk=None if c["pk"] == "none" else "pk" + c["pk"], data=w.data[v][c["data"]], reader=rd, tc=b"t", uc=b"u", to="own", grp=json.dumps(key), gp="C18", need=NEED, meta=meta, **kw)
    elif op == "open":
        i = c["wrong"] if "wrong" in c else (h["b"] * 5 + v + h["t"]) % len(w.wrongs)
        ca = c["ca"] if "ca" in c else (h["b"] + v) % 3
        key = ("open", c["box"], c["how"], i, ca, v)
        t = ref.sk_text(w.enc[v] if c["box"] == "enc" else w.plain[v])
        if c["how"] == "plain":
            s.op("sk_load", carrier=("ubox", "uboxfrom", "ubox")[ca], in_=t, to="o", grp=json.dumps(key), gp="C18", need=NEED, meta=meta, **kw)
        else:
            s.op("sk_load", carrier=("box", "boxfrom", "file")[ca], in_=t, pw=w.pw if c["how"] == "right" else w.wrongs[i], to="o", grp=json.dumps(key), gp="C18", need=NEED, meta=meta, **kw)
    elif op == "load":
        key = ("load", c["what"], c["good"])
        t = w.texts[c["what"], c["good"]]
        a = {"sig": ("sig_load", dict(carrier="string")), "pk": ("pk_load", dict(carrier="box")), "sk": ("sk_load", dict(carrier="ubox"))}[c["what"]]
        s.op(a[0], in_=t, to="l", grp=json.dumps(key), gp="C18", need=NEED, meta=meta, **a[1], **kw)
    elif op == "store":
        key = ("store", c["what"], v)
        if c["what"] == "pk":
            s.op("pk_store", pk="pkA", carrier="box", to="t", grp=json.dumps(key), gp="C18", need=NEED, **kw)
        elif c["what"] == "sk":
            s.op("sk_store", sk="skA", carrier="box", comment=b"c", to="t", grp=json.dumps(key), gp="C18", need=NEED, **kw)
        else:
            s.op("sig_store", sig=f"sApreno{v}", carrier="string" if c["what"] == "sig" else "bones", to="t", grp=json.dumps(key), gp="C18", need=NEED, **kw)
    elif op == "derive":
        key = ("derive", c["sk"], v)
        s.op("pk_from_sk", sk="sk" + c["sk"], to="dp", grp=json.dumps(key), gp="C18", need=NEED, **kw)
    elif op == "gen":
        key = ("gen",)
        s.op("gen", kind="plain", pkto="gp", skto="gk", grp=json.dumps(key), gp="C18", need=NEED, **kw)
    elif op == "writefail" or (op == "rngfail" and threaded):
        key = ("writefail",)
        s.op("genw", kind="plain", pkto="gp", skto="gk", wsk="w10,e", grp=json.dumps(key), gp="C18", need=NEED, **kw)
    elif op == "rngfail":
        key = ("rngfail", v)
        s.op("rng", mode="fail:1:1")
        s.op("gen", kind="plain", pkto="gp", skto="gk", grp=json.dumps(key), gp="C18", need=[], **kw)
        s.op("sign", sk="skA", data="h6d", to="own2", need=[])
        s.op("rng", mode="real")
    elif op == "clone":
        n = {"pk": "pkA", "sk": "skA", "sig": f"sApreno{v}"}[c["what"]]
        s.op("clone", reg=n, to="old" + c["what"])
        s.op("clone", reg=n, to=n, **kw)
        key = None
    elif op == "drop":
        s.op("drop", reg="old" + c["what"], **kw)
        key = None
    else:
        raise ToolError(op)
    return key


def isolated(w, ctx, keys):
    """each call alone, in a process of its own"""
    out = []
    for i, key in enumerate(sorted(keys, key=json.dumps)):
        s = Script(f"alone{i}", need=NEED, profiles=("dev",))
        op = key[0]
        full = dict(call=None, real=None, out="ok")
        if op == "verify":
            _, pk, sg, data, legacy, cut, o, v = key
            if isinstance(sg, tuple):
                w.load(s, {"pk" + pk, "sk" + sg[1]}, v)
                s.op("sign", sk="sk" + sg[1], data=w.data[v][sg[2]], reader="*r1000", tc=b"t", uc=b"u", to="own", need=NEED)
                n = "own"
            else:
                w.load(s, {"pk" + pk, sg}, v)
                n = sg
            s.op("verify", pk="pk" + pk, sig=n, data=w.data[v][data], legacy=legacy, quiet=1, output=o, reader=CUT if cut else "*r1000", grp=json.dumps(key), gp="C18", need=NEED)
        else:
            need = set()
            c = {"op": op}
            if op == "sign":
                c.update(sk=key[1], pk=key[2], data=key[3], cut=key[4])
                need = {"sk" + key[1]} | ({"pk" + key[2]} if key[2] != "none" else set())
            elif op == "open":
                c.update(box=key[1], how=key[2], wrong=key[3], ca=key[4])
            elif op == "load":
                c.update(what=key[1], good=key[2])
            elif op == "store":
                c.update(what=key[1])
                need = {"pkA", "skA", f"sApreno{key[2]}"}
            elif op == "derive":
                c.update(sk=key[1])
                need = {"sk" + key[1]}
            elif op == "rngfail":
                need = {"skA"}
            v = key[-1] if op in ("sign", "store", "open", "derive", "rngfail") else 0
            w.load(s, need, v)
            h = {"call": c, "real": c, "out": "ok", "b": 0, "t": 0}
            emit(w, s, h, v, {}, False)
            for m in s.meta.values():
                m.pop("model", None)
        out.append(s)
    runs = ctx.run(out)
    return [e for _, _, evs in runs for e in evs]


def check(ctx):
    ctx.prepare()
    q = ctx.quick
    w = World(ctx)

    def consts(t, n, a, d, e):
        return f" Threads = {{{', '.join(map(str, range(1, t + 1)))}}}\n MaxCalls = {n}\n Alphabet = \"{a}\"\n Design = \"{d}\"\n Emit = {'TRUE' if e else 'FALSE'}"
    ctx.model("Hist", constants=consts(2, 1, "full" if not q else "small", "pure", False), invariants=["OutcomePure"], allow_never=True, workers=8)
    if not q:
        ctx.model("Hist", constants=consts(1, 3, "small", "pure", False), invariants=["OutcomePure"], allow_never=True, workers=8, xmx="8g", label="Hist 1 thread, 3 calls")
    for d in WRONG:
        ctx.model("Hist", constants=consts(2, 1, "small", d, False), invariants=["OutcomePure"], expect="OutcomePure", workers=2, label=f"Hist {d} (must fail)")
    for d in ("limit", "ration"):
        ctx.model("Hist", constants=consts(1, 3, "small", d, False), invariants=["OutcomePure"], expect="OutcomePure", workers=2, label=f"Hist {d} (must fail)")
    system.explore(ctx)
    n1, k1 = (120, 30) if q else (1500, 60)
    n2, k2 = (90, 6) if q else (1500, 8)
    n3, k3 = (40, 5) if q else (600, 7)
    b1 = ctx.model("Hist", constants=consts(1, k1, "full", "pure", True), invariants=["OutcomePure", "Printed"], spec="SpecSim", simulate=(n1, 2 * k1 + 1), workers=1, label="Hist, 1 thread")
    b2 = ctx.model("Hist", constants=consts(2, k2, "full", "pure", True), invariants=["OutcomePure", "Printed"], spec="SpecSim", simulate=(n2, 4 * k2 + 1), workers=1, label="Hist, 2 threads")
    b3 = ctx.model("Hist", constants=consts(3, k3, "full", "pure", True), invariants=["OutcomePure", "Printed"], spec="SpecSim", simulate=(n3, 6 * k3 + 1), workers=1, label="Hist, 3 threads")
    if min(len(b1) / n1, len(b2) / n2, len(b3) / n3) < 0.9:
        raise ToolError("too few histories")
    keys, runs, scripts = set(), [], []

    def note(k):
        if k:
            keys.add(k)
    # ---- one thread
    single = []
    for n, b in enumerate(b1):
        v = n % NV
        s = Script(f"single{n}", need=NEED, profiles=("dev",) if n % 3 else ("release",))
        w.load(s, w.everything(v), v)
        for h in b:
            note(emit(w, s, h, v, {}, False))
        single.append(s)
    # ---- the same call again and again, as a design that counts would notice; then others
    again = {}
    for b in b1:
        for h in b:
            c = h["call"]
            if c["op"] not in ("clone", "drop") and not (c["op"] == "verify" and c["sig"]["by"] == "own"):
                again.setdefault((c["op"], h["out"], c.get("how"), c.get("what"), c.get("cut"), (c["sig"]["flaw"], c["pk"] == c["sig"]["by"], c["data"], c["legacy"]) if c["op"] == "verify" else (c.get("sk"), c.get("pk"))), h)
    for n, (what, h) in enumerate(sorted(again.items(), key=lambda x: json.dumps(x[0]))):
        v = n % NV
        s = Script(f"again{n}", need=NEED, profiles=("release",))
        w.load(s, w.everything(v), v)
        slow = h["call"]["op"] == "open" and h["call"]["how"] != "plain"
        for i in range((40 if slow else 260) if q else (300 if slow else 2500)):
            note(emit(w, s, h, v, {}, True))
        for g in b1[n % len(b1)]:
            note(emit(w, s, g, v, {}, False))
        single.append(s)
    scripts += single
    for s, p, evs in ctx.run(single):
        runs.append(evs)
    # ---- several threads, interleaved as in the model
    jobs = []
    for n, b in enumerate(b2 + b3):
        v = n % NV
        pre = Script(f"pre{n}", need=NEED)
        w.load(pre, w.everything(v), v)
        ts = sorted({h["t"] for h in b})
        th = {t: Script(f"inter{n}.{t}", need=NEED) for t in ts}
        for h in b:
            op = h["call"]["op"]
            park = {"verify": "read", "sign": ("read", "rng1", "rng2")[(n + h["b"]) % 3], "gen": ("rng1", "rng2")[(n + h["b"]) % 2], "writefail": "write", "rngfail": "write"}.get(op, "none")
            note(emit(w, th[h["t"]], h, v, dict(tb=h["b"], te=h["e"], park=park), True) if not (op == "verify" and h["call"]["sig"]["by"] == "own" and h["real"]["sig"]["by"] == "none")
                 else th[h["t"]].op("drop", reg="nothing", tb=h["b"], te=h["e"], park="none") and None)
        jobs.append((list(th.values()), pre, "dev" if n % 3 else "release"))
    # ---- many threads, free
    import random
    rnd = random.Random(ctx.seed)
    progs = b1 + b2 + b3
    for n in range(6 if q else 60):
        v = n % NV
        pre = Script(f"fpre{n}", need=NEED)
        w.load(pre, w.everything(v), v)
        th = []
        for t in range(16):
            s = Script(f"free{n}.{t}", need=NEED)
            for _ in range(3 if q else 6):
                b = rnd.choice(progs)
                one = rnd.choice(sorted({h["t"] for h in b}))
                s.op("drop", reg="own")
                for h in b:
                    if h["t"] == one:
                        note(emit(w, s, h, v, {}, True))
            th.append(s)
        jobs.append((th, pre, "release" if n % 2 else "dev"))
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(4) as ex:
        for (th, pre, p), r in zip(jobs, ex.map(lambda j: ctx.run_threads(j[0], j[1], j[2]), jobs)):
            runs += r
            scripts += th
    # ---- the whole library, one call after another; what a call was given decides what it gives
    walks = system.system(ctx, 60 if q else 600)
    scripts += walks
    wevs = system.group([e for _, _, evs in ctx.run(walks) for e in evs])
    base = isolated(w, ctx, keys)
    log(f"{len(keys)} calls in isolation, {len(b1)} + {len(b2)} + {len(b3)} histories")
    # every bundle gets the calls in isolation first
    nb = 8 if q else 48
    bundles = [[] for _ in range(nb)]
    for evs in sorted(runs, key=len, reverse=True):
        min(bundles, key=len).extend(evs)
    ctx.judge([("walks", wevs)] + [(f"b{i}", base + b) for i, b in enumerate(bundles)])
    return ctx.finish("Hist.tla (histories, interleavings, hidden-state designs shown to fail) model checked; its simulated histories carried out in one thread, in several threads interleaved exactly as in the model (calls parked inside reads and random draws), and in free-running threads over shared values; TLC judges each call and compares it with the same call in isolation",
                      {"histories": len(b1) + len(b2) + len(b3), "isolated_calls": len(keys)}, scripts)
