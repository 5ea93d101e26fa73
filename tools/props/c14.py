"""C14: verification outputs only verified data, and only when asked."""
import ref
from . import streams
from .common import *

TCS = [b"the trusted comment", b"", b" leading and trailing ", "h\u00e9 \U0001f512".encode(), b"timestamp:1700000000\tfile:x\thashed", b"A" * 5000, b"\x1b[31mred", b"a\0b", b"% s {} {0} %n", "x\u2028y".encode()]


def check(ctx):
    ctx.prepare()
    q = ctx.quick
    rng = ctx.rng
    behs = streams.model(ctx)
    beh = [b for b in behs if b["cfg"]["op"] == "verify"]
    rng.shuffle(beh)
    beh.sort(key=lambda b: not b["cfg"]["output"])
    no = int(len(beh) * 1)
    outs = [b for b in beh if b["cfg"]["output"]]
    quiet = [b for b in beh if not b["cfg"]["output"]]
    groups = [streams.replay(ctx, outs[:2200] + quiet[:800] if q else beh, "C14")]
    pool = streams.Pool(ctx)
    k = pool.k

    def pre(s):
        load_pk(s, "P", k.pk)
        s.op("sk_load", carrier="bytes", in_=k.sk(), to="K")
        load_pk(s, "Q", mkkey(ctx, "c14other").pk)
        load_pk(s, "PI", k.pk[:2] + b"\x99" * 8 + k.pk[10:])
    both = ("dev", "release")
    # what there is to output: every size, contents that a line buffer or a formatter would treat specially
    datas = ["h", "h0a", "h61", "h610a", "h610a62", "h0d0a", "z10:5000", "z0:70000", "z97:1023", "z97:1024", "z97:1025", "z97:8192+h0a", "h0a+z97:8192", "z255:3000", "h7b7d2573", "h1a", "h04", "hefbbbf", "hc3", "z97:65535+h0a",
             "z97:65536+h0a", "z97:65535+h0a+z98:10", "p3:65535", "p3:65536", "p3:65537", "p3:131072", "p3:200001"] + ([f"p{s}:{s}" for s in LENS_T if s < 400000] if not q else [f"p{s}:{s}" for s in (2, 31, 127, 128, 129, 4096, 8191, 8193)])
    out = Scripts("out", 300, need=["C14"], profiles=both, pre=pre)
    n = 0
    for d in datas:
        size = len(ref.expand(d))
        for start in sorted({0, 1, size // 2, max(0, size - 1), size, size + 3}):
            for legacy in (False, True):
                tc = TCS[n % len(TCS)]
                m = pool.get(d, start, True, legacy, tc)
                b = pool.get(d, start, False, legacy, tc)
                s = out.get()
                for x, bare, fl in ((m, 0, 2), (m, 0, 0), (m, 0, 3), (m, 0, 1), (m, 1, 2), (b, 0, 2), (b, 0, 3), (b, 1, 2)):
                    load_sig(s, "g", x.bones, None if bare else x.tc, x.gsig)
                    s.op("verify", pk="P", sig="g", data=d, start=start, **flags(fl | 4))
                # everything that makes verification fail: legacy not allowed, other key, other key id, comment
                load_sig(s, "g", m.bones, m.tc, m.gsig)
                if legacy:
                    s.op("verify", pk="P", sig="g", data=d, start=start, **flags(2))
                s.op("verify", pk="Q", sig="g", data=d, start=start, **flags(6))
                s.op("verify", pk="PI", sig="g", data=d, start=start, **flags(6 - n % 2))
                load_sig(s, "g", m.bones, m.tc + b"x", m.gsig)
                s.op("verify", pk="P", sig="g", data=d, start=start, **flags(6))
                load_sig(s, "g", m.bones, m.tc, m.gsig[:63] + bytes([m.gsig[63] ^ 1]))
                s.op("verify", pk="P", sig="g", data=d, start=start, **flags(6))
                # the signature covers only a part of what is read, or more
                if start:
                    m0 = pool.get(d, 0, True, legacy, tc)
                    load_sig(s, "g", m0.bones, m0.tc, m0.gsig)
                    s.op("verify", pk="P", sig="g", data=d, start=start, **flags(6))
                    load_sig(s, "g", m.bones, m.tc, m.gsig)
                    s.op("verify", pk="P", sig="g", data=d, start=0, **flags(6))
                # output that goes nowhere
                if size > start:
                    load_sig(s, "g", m.bones, m.tc, m.gsig)
                    s.op("verify", pk="P", sig="g", data=d, start=start, stdout=("full", "pipe")[n % 2], **flags(6 + n % 2))
                    s.op("verify", pk="P", sig="g", data=d, start=start, **flags(6))
                n += 1
    # the second pass: failures and short reads at every point
    second = Scripts("second", 300, need=["C14"], profiles=("dev",), pre=pre)
    for d in ("p1:1000", "p1:65536", "p1:70000", "p1:200000", "h0a61"):
        size = len(ref.expand(d))
        for legacy in (False, True):
            m = pool.get(d, 0, True, legacy, b"t")
            caps = [1, 64, 1000, 8192, 65536, 65537]
            for cap in caps:
                if size / cap > 2000:
                    continue
                for p in sorted({0, 1, 2, size // cap // 2, size // cap - 1, size // cap}):
                    for kind in ("e", "E", "w", "u", "i", "i,i,i,i,e"):
                        if p < 0 or (q and (cap + p + len(kind)) % 2):
                            continue
                        sched = "|" + ",".join([f"*r{cap}"] * (p > 0) + [f"r{cap}"] * max(0, p - 1) + [kind])
                        s = second.get()
                        load_sig(s, "g", m.bones, m.tc, m.gsig)
                        s.op("verify", pk="P", sig="g", data=d, reader=sched, **flags(6 + p % 2))
                s = second.get()
                load_sig(s, "g", m.bones, m.tc, m.gsig)
                s.op("verify", pk="P", sig="g", data=d, reader="|s", **flags(6))
                s.op("verify", pk="P", sig="g", data=d, reader=f"*r{cap}|*r{caps[(caps.index(cap) + 1) % 6]}", **flags(6)) if size < 70001 else None
    # neither signing nor anything else writes to standard output
    oth = Scripts("other", 300, need=[], profiles=("dev",), pre=pre)
    for i in range(10 if q else 60):
        s = oth.get()
        s.op("sign", sk="K", data=f"p{i}:{i * 100}", tc=TCS[i % len(TCS)], to="g")
        s.op("verify", pk="P", sig="g", data=f"p{i}:{i * 100}", **flags(i % 8))
        s.op("verify", pk="P", sig="g", data=f"p{i}:{i * 100 + 1}", **flags(i % 8))
        s.op("sig_bones", sig="g", to="h")
        s.op("verify", pk="P", sig="h", data=f"p{i}:{i * 100}", **flags(i % 8))
        s.op("genw", kind="plain", pkto="p", skto="k")
    groups += [out, second, oth, streams.far(ctx, "C14")]
    return standard(ctx, *groups, note="Stream.tla (reads, decision, output; unsafe designs shown to fail) model checked and replayed; outputs of every size, from every position, to failing sinks; TLC judges what appeared on the standard streams")
