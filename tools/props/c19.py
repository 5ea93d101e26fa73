"""C19: passwords typed at a terminal."""
import ref
from .common import *

NEED = ["C19"]
INV = ["GenOnlyConfirmed", "GenAlways", "SealedAsTyped", "OpenExactly", "AskedTwice", "NotShown"]
UNSAFE = {"once": "GenOnlyConfirmed", "prefix": "GenOnlyConfirmed", "fold": "GenOnlyConfirmed", "nolimit": "GenOnlyConfirmed",
          "chars": "GenOnlyConfirmed", "emptyfree": "GenOnlyConfirmed", "trim": "OpenExactly", "eofempty": "OpenExactly", "echo": "NotShown"}

# several ways to write each entry of the specification
P = ["correct horse", "h\u00e9llo w\u00f6rld", "Tr0ub4dor&3", "x"]


def concrete(n, v):
    p = P[v % len(P)]
    t = {"empty": "", "p": p, "P": p.swapcase(), "q": "another one", "px": p + "y", "p-sp": p + (" ", "\u00a0", "\u3000")[v % 3], "sp": (" ", "  ", "\u00a0")[v % 3],
         "max": "m" * 1024, "max-mb": "\u00e9" * 512, "over": "m" * 1025, "over-mb": "\u00e9" * 513}[n]
    return t.encode()


def entry(n, v):
    if n in ("eof", "intr", "hup"):
        return {"k": n, "t": ""}
    return {"k": "text", "t": concrete(n, v).hex()}


def check(ctx):
    ctx.prepare()
    q = ctx.quick
    behs = ctx.model("Prompt", constants=' Design = "sound"\n Emit = TRUE', invariants=INV + ["Printed"], properties=["Ends"])
    for d, inv in UNSAFE.items():
        ctx.model("Prompt", constants=f' Design = "{d}"\n Emit = FALSE', invariants=INV, expect=inv, label=f"Prompt {d} (must fail)")
    K = mkkey(ctx, "A")
    ctx.rng.shuffle(behs)
    # every opening, every refused generation; of the generations that succeed (costly) all of them too
    scripts, group = [], {}
    n = 0

    def sc(profile, kind):
        g = group.get((profile, kind))
        if g is None or len(g) > 30:
            g = Script(f"tty{len(scripts)}", profiles=(profile,), need=NEED)
            g.op("rng", mode=f"seed:{ctx.seed * 31 + len(scripts)}")
            scripts.append(g)
            group[(profile, kind)] = g
        return g

    def act(b, v, profile, kind="mix"):
        s = sc(profile, kind)
        plan = [entry(x, v) for x in b["user"]]
        meta = {"plan": plan, "model": b["ok"]}
        if b["op"] == "open":
            made = concrete(b["made"], v)
            box = ref.sk_text(K.sk(pw=made, salt=bytes(32), **LOW), b"c")
            s.op("sk_load", carrier=("box", "boxfrom", "file")[v % 3], in_=box, to="k", meta=meta)
            s.op("sign", sk="k", data="h6d", tc=b"t", to="g", need=[])
            s.op("drop", reg="k")
        elif b["op"] == "gen":
            s.op("gen", kind="enc", pkto="p", skto="k", meta=meta)
            if b["ok"]:
                s.op("sk_store", sk="k", carrier="box", comment=b"c", to="t")
                s.op("sk_load", carrier="box", inreg="t", pw=bytes.fromhex(plan[0]["t"]), to="k2")
                if v % 2:
                    s.op("sk_load", carrier="box", inreg="t", to="k3", meta={"plan": plan[:1]})
                if v % 3 == 0:
                    s.op("sk_load", carrier="box", inreg="t", pw=bytes.fromhex(plan[0]["t"]) + b" ", to="k3", need=[])
        else:
            s.op("genw", kind="enc", comment=(b"c", None, b"a b")[v % 3], pkto="p", skto="k", pkwto="wp", skwto="ws", meta=meta)
            if b["ok"]:
                s.op("sk_load", carrier="box", inreg="ws", pw=bytes.fromhex(plan[0]["t"]), to="k2")
                if v % 2:
                    s.op("sk_load", carrier="file", inreg="ws", to="k3", meta={"plan": plan[:1]})
                if v % 3 == 0:
                    s.op("sk_load", carrier="box", inreg="ws", to="k3", meta={"plan": [entry("q", 0)]})
        if "hup" in b["user"]:
            group.pop((profile, kind))       # the terminal is gone
    reps = 1 if q else 6
    for r in range(reps):
        for b in behs:
            act(b, n + r, "release", "costly" if b["ok"] and b["op"] != "open" else "cheap")
            n += 1
    for b in behs:
        if b["op"] == "open" or (not b["ok"] and b["op"] != "open"):
            if n % 4 == 0 or not q:
                act(b, n, "dev", "cheap")
            n += 1
    # ---- near misses: pairs of entries that differ in one place, at any position
    near = Scripts("near", 40, need=NEED, profiles=("release",))
    base = b"0123456789abcdefghijklmnopqrstuvwxyz" * 28      # 1008 bytes
    pos = [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 71, 72, 127, 128, 255, 256, 511, 512, 1000, 1007]
    for i in pos if q else range(0, 1008, 5):
        for w in (base[:i] + b"#" + base[i + 1:], base[:i] + base[i + 1:], base[:i]):
            s = near.get()
            a, b = (base, w) if i % 2 else (w, base)
            s.op("gen" if i % 3 else "genw", kind="enc", pkto="p", skto="k", meta={"plan": [{"k": "text", "t": a.hex()}, {"k": "text", "t": b.hex()}]})
    for i in (pos if q else range(0, 1008, 5)):
        s = near.get()
        box = ref.sk_text(K.sk(pw=base, salt=bytes([i % 256] * 32), **LOW), b"c")
        for w in (base[:i] + b"#" + base[i + 1:], base[:i] + base[i + 1:], base):
            s.op("sk_load", carrier=("box", "boxfrom", "file")[i % 3], in_=box, to="k", meta={"plan": [{"k": "text", "t": w.hex()}]})
    # ---- lengths around the limit
    lens = Scripts("lens", 40, need=NEED, profiles=("release",))
    for L in (1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 1026, 1027, 1100, 1280, 1500, 2000, 2047, 2048, 2049, 3000):
        for ch in (b"z", "\u00e9".encode(), "\u4f60".encode(), "\U0001f512".encode()):
            if L % len(ch) and L != 1025:
                continue
            t = ch * (L // len(ch)) + b"z" * (L % len(ch))
            s = lens.get()
            e = {"k": "text", "t": t.hex()}
            if L > 1024 or (L in (1, 64, 1024)) or not q:
                s.op("gen", kind="enc", pkto="p", skto="k", meta={"plan": [e, e]})
                if L > 1024:
                    s.op("gen", kind="enc", pkto="p", skto="k", meta={"plan": [{"k": "text", "t": t[:1024].hex()}, e]})
                    s.op("gen", kind="enc", pkto="p", skto="k", meta={"plan": [e, {"k": "text", "t": t[:1024].hex()}]})
            for pw in (t, t[:1024]):
                box = ref.sk_text(K.sk(pw=pw, salt=bytes(32), **LOW), b"c")
                s.op("sk_load", carrier="box", in_=box, to="k", meta={"plan": [e]})
    # ---- what is not an encrypted key does not open with anything typed; a given password asks for nothing
    odd = Scripts("odd", 40, need=NEED, profiles=("dev", "release"))
    pe = {"k": "text", "t": b"correct horse".hex()}
    for v in range(3):
        for box in (K.sk(), K.sk(pw=b"", salt=bytes(32), **LOW), K.sk(pw=b"correct horse", salt=b"\1" * 32, **LOW)):
            for e in (pe, entry("empty", 0), entry("eof", 0), entry("intr", 0)):
                s = odd.get()
                s.op("sk_load", carrier=("box", "boxfrom", "file")[v], in_=ref.sk_text(box, b"c"), to="k", meta={"plan": [e]})
    bad = bytearray(K.sk(pw=b"correct horse", salt=b"\1" * 32, **LOW))
    for i in (0, 2, 5, 60, 100, 130, 157):
        bad[i] ^= 1
        odd.get().op("sk_load", carrier="box", in_=ref.sk_text(bytes(bad), b"c"), to="k", meta={"plan": [pe]})
        bad[i] ^= 1
    # ---- one after the other in one process: nothing stays from earlier entries
    seq = Scripts("seq", 60, need=NEED, profiles=("dev", "release"))
    cand = [b"correct horse", b"correct hors", b"Correct horse", b"", b"w", b"correct horse battery"]
    boxes = {w: ref.sk_text(K.sk(pw=w, salt=bytes([len(w)] * 32), **LOW), b"c") for w in cand}
    for i in range(40 if q else 600):
        s = seq.get()
        a, b = ctx.rng.choice(cand), ctx.rng.choice(cand)
        s.op("sk_load", carrier=("box", "file")[i % 2], in_=boxes[a], to="k", meta={"plan": [{"k": "text", "t": b.hex()}]})
        if i % 5 == 0:
            s.op("sk_load", carrier="box", in_=boxes[a], to="k", pw=b)
        if i % 7 == 0:
            s.op("gen", kind="enc", pkto="p", skto="k", meta={"plan": [{"k": "text", "t": a.hex()}, {"k": "text", "t": (a + b"!").hex()}]})
    # ---- no terminal
    none = Scripts("none", 100, need=NEED, profiles=("dev",))
    for e in ("empty", "p", "max"):
        s = none.get()
        s.op("gen", kind="enc", pkto="p", skto="k", meta={"plan": [entry(e, 0), entry(e, 0)]})
        s.op("genw", kind="enc", comment=b"c", pkto="p", skto="k", meta={"plan": [entry(e, 0), entry(e, 0)]})
        for carrier in ("box", "boxfrom", "file"):
            s.op("sk_load", carrier=carrier, in_=ref.sk_text(K.sk(pw=concrete(e, 0), salt=bytes(32), **LOW), b"c"), to="k", meta={"plan": [entry(e, 0)]})
    for s in none:
        s.tty = "none"
    # ---- the writers fail after the prompts
    wf = Scripts("wf", 20, need=NEED, profiles=("release",))
    for w in ("e", "w5,e", "w0"):
        wf.get().op("genw", kind="enc", comment=b"c", wpk=w, pkto="p", skto="k", meta={"plan": [pe, pe]})
        wf.get().op("genw", kind="enc", comment=b"c", wsk=w, pkto="p", skto="k", meta={"plan": [pe, pe]})
    groups = [scripts, near, lens, odd, seq, none, wf]
    alls = [s for g in groups for s in g]
    runs = ctx.run_tty(alls)
    asked = sum(len(e.get("entries", [])) for s, p, evs in runs for e in evs)
    rej = judge_runs(ctx, runs)
    if asked < 300 and not rej:
        raise ToolError(f"only {asked} prompts were seen")
    return ctx.finish("Prompt.tla (all pairs of entries; unsafe ways to ask shown to fail) model checked and every behaviour typed at a pseudo terminal of the real process; TLC compares what was typed with what the key opens with, and looks for it in everything shown",
                      {"prompts_answered": asked}, alls)
