#!/usr/bin/env python3
"""canary.py [property...]: does the binding notice?  Runs the scripts of the checks, takes a sample of the recorded events that
the specification accepts, corrupts one recorded field of each (what the driver claims to have seen), and lets TLC judge the
corrupted recordings.  Reports which corruptions are noticed, by operation and field; exit 1 if TLC cannot judge one at all."""
import collections
import importlib
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine

OUT = {"skb", "pkb", "pkid", "skid", "keynum", "bones", "text", "ucout", "tcout", "outb", "pkw", "skw", "err", "outlen", "outfp",
       "errlen", "unflushed", "eq", "hastc", "pre", "bonespre", "pklog", "sklog", "rlog", "draws", "drawn", "dbgpanic", "res", "out"}
# of an event that came out otherwise these say nothing
LAX = {"rlog", "pklog", "sklog", "draws", "drawn", "err", "errlen", "out"}


def ishex(s):
    return len(s) % 2 == 0 and all(c in "0123456789abcdef" for c in s)


def mutants(e, rng, pool):
    for f, v in sorted(e.items()):
        if f not in OUT:
            continue
        if f == "res":
            for r in ("ok", "err", "panic", "abort"):
                if r != v:
                    x = {"res": r}
                    if r == "ok":
                        if e["op"] not in pool:
                            continue
                        o = rng.choice(pool[e["op"]])
                        x.update({k: o[k] for k in o if k in OUT and k != "res" and k not in e})
                    yield f"{v}->{r}", x
        elif isinstance(v, bool):
            yield f, {f: not v}
        elif isinstance(v, int):
            yield f + "+1", {f: v + 1}
            if v:
                yield f + "=0", {f: 0}
        elif isinstance(v, str) and ishex(v):
            b = bytes.fromhex(v)
            if b:
                i = rng.randrange(len(b))
                yield f + "~", {f: (b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]).hex()}
                yield f + "<", {f: b[:-1].hex()}
                yield f + "0", {f: ""}
            yield f + ">", {f: (b + b"A").hex()}
            yield f + "?", {f: rng.randbytes(rng.choice([1, 5, 41, 42, 60, 74, 158, 200])).hex()}
        elif isinstance(v, list):
            if v:
                yield f + "<", {f: v[:-1]}
                yield f + "0", {f: []}


class Canary(engine.Context):
    per = int(os.environ.get("CANARY_PER", "12"))

    def judge(self, runs, prop=None, label=""):
        by = collections.defaultdict(list)
        for b, evs in runs:
            for e in evs:
                if e["res"] in ("skip", "abort") or e["op"] in self.QUIET or (e["op"] == "clone" and "was" not in e):
                    continue
                if sum(len(str(v)) for v in e.values()) > 20000:
                    continue
                j = {k: v for k, v in e.items() if k not in self.DROP and k not in ("grp", "gp", "model")}
                j["need"] = j.get("need") or ["C02"]
                by[e["op"], e["res"], j.get("carrier", "")].append(j)
        rng = random.Random(f"canary:{self.seed}:{self.prop}:{label}")
        sample = [x for k in sorted(by) for x in rng.sample(by[k], min(self.per, len(by[k])))]
        for n, e in enumerate(sample):
            e["id"] = n
        _, _, rej = self._tlc_trace(0, sample, "ALL")
        bad = {r["id"] for r in rej}
        sample = [e for e in sample if e["id"] not in bad]
        pool = collections.defaultdict(list)
        for e in sample:
            if e["res"] == "ok":
                pool[e["op"]].append(e)
        muts, evs = {}, []
        for e in sample:
            for name, x in mutants(e, rng, pool):
                m = dict(e, **x)
                m["id"] = 1000 + len(evs)
                muts[m["id"]] = (e["op"], e["res"], name)
                evs.append(m)
        shards = [evs[k::engine.CORES] for k in range(engine.CORES)]
        rejected = set()
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(engine.CORES) as ex:
            for _, _, r in ex.map(lambda x: self._tlc_trace(*x, "ALL"), enumerate(s for s in shards if s)):
                rejected |= {y["id"] for y in r}
        t = collections.Counter()
        for i, k in muts.items():
            t[k, i in rejected] += 1
        for e in evs:
            k = muts[e["id"]]
            if e["id"] not in rejected:
                self.missed.setdefault(k, []).append(e)
        for k in set(muts.values()):
            a, b = self.total.get(k, (0, 0))
            self.total[k] = (a + t[k, True], b + t[k, True] + t[k, False])
        print(f"# {self.prop} {label}: {len(rejected)} of {len(evs)} corrupted events noticed", flush=True)
        return []

    def model(self, *a, **k):
        return [] if k.get("expect") else super().model(*a, **k)

    def finish(self, *a, **k):
        return 0


def main():
    props = sys.argv[1:] or [f"C{i:02}" for i in range(1, 21)]
    total, missed, rc = {}, {}, 0
    for p in props:
        ctx = Canary(p, "quick", int(os.environ.get("VERIF_SEED", "1")))
        ctx.total, ctx.missed = total, missed
        try:
            importlib.import_module(f"props.{p.lower()}").check(ctx)
        except engine.ToolError as x:
            print(f"TOOL-ERROR {p}: {str(x)[-1500:]}", flush=True)
            rc = 1
        finally:
            ctx.cleanup()
    for k in sorted(total):
        f = k[2].rstrip("+10=~<>?")
        if f in LAX or total[k][0] == total[k][1]:
            continue
        print("%-12s %-6s %-14s %5d/%d" % (*k, *total[k]))
    json.dump([[list(k), v[:3]] for k, v in sorted(missed.items())], open(os.path.join(engine.BUILD, "canary-missed.json"), "w"), indent=1)
    print("CANARY", sum(a for a, b in total.values()), "of", sum(b for a, b in total.values()), "noticed")
    return rc


sys.exit(main())
