"""Runs scripts on the real library, lets TLC judge what was recorded, and reports.

Exit codes of a check: 0 held on everything explored; 1 with VIOLATION lines; 2 the machinery failed."""
import concurrent.futures as cf
import fcntl
import glob
import json
import os
import random
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import termios
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print("#", *a, flush=True)


# ------------------------------------------------------------------------------------------- building
def _run(cmd, cwd, what, env=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode:
        raise ToolError(f"{what} failed:\n{r.stdout[-4000:]}")
    return r.stdout


def build(profiles=("dev", "release")):
    """the driver, from /repo's current working tree, and the oracle"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
        for v in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(v, None)
        # never trust time stamps for the code under test
        for d in glob.glob(os.path.join(BUILD, "target", "*", ".fingerprint", "minisign-*")):
            shutil.rmtree(d, ignore_errors=True)
        out = {}
        for p in profiles:
            _run(["cargo", "build", "--offline", "--quiet", "--profile", p, "--target-dir", os.path.join(BUILD, "target")],
                 os.path.join(VERIF, "harness"), f"building the driver ({p})", env)
            src = os.path.join(BUILD, "target", "debug" if p == "dev" else p, "msdriver")
            # a private copy: a later build must not replace a running binary
            fd, dst = tempfile.mkstemp(prefix=f"msdriver-{p}-", dir=BUILD)
            os.close(fd)
            shutil.copy2(src, dst)
            os.chmod(dst, 0o755)
            out[p] = dst
        cls = os.path.join(BUILD, "classes")
        srcs = sorted(glob.glob(os.path.join(VERIF, "oracle", "minisign", "*.java")))
        stamp = os.path.join(cls, "stamp")
        want = "".join(open(s).read() for s in srcs)
        if not os.path.exists(stamp) or open(stamp).read() != want:
            shutil.rmtree(cls, ignore_errors=True)
            os.makedirs(cls)
            _run(["javac", "-nowarn", "-cp", TLAJARS, "-d", cls] + srcs, VERIF, "compiling the oracle")
            o = _run(["java", "-cp", cls, "minisign.SelfTest"], VERIF, "oracle self-test")
            if "ORACLE-SELFTEST-OK" not in o:
                raise ToolError("oracle self-test: " + o)
            open(stamp, "w").write(want)
    return out


# -------------------------------------------------------------------------------------------- scripts
class Ids:
    n = 0

    @classmethod
    def next(cls):
        cls.n += 1
        return cls.n


DEFAULT_NEED = {"verify": ["C02"], "sign": ["C02"], "gen": ["C02"], "genw": ["C13"], "sk_load": ["C05"],
                "sig_load": ["C11"], "sig_store": ["C02"], "sig_bones": ["C02"]}


def fmt(v):
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, (bytes, bytearray)):
        return bytes(v).hex()
    return str(v)


class Script:
    """A sequence of operations for one process (or one thread).  `bundle` names the scripts whose events
    belong to one trace; events of a bundle are judged in order, by one TLC run."""

    def __init__(self, name, bundle=None, profiles=("dev",), need=None, threads=False, env=None, cpu=240):
        self.cpu = cpu
        self.mem = 6            # GiB
        self.tty = "own"        # run_tty: "none" for a process without a terminal
        self.name, self.bundle, self.profiles = name, bundle or name, profiles
        self.lines, self.meta, self.need, self.threads = [], {}, need, threads
        self.env = env or {}

    def op(self, op, need=None, grp=None, gp=None, meta=None, **kw):
        i = Ids.next()
        m = {"need": need if need is not None else (self.need or DEFAULT_NEED.get(op, []))}
        if grp is not None:
            m["grp"], m["gp"] = grp, gp
        if meta:
            m.update(meta)
        a = []
        for k, v in kw.items():
            if v is None:
                continue
            k = k.rstrip("_")
            if k == "inreg":
                k, v = "in", "=" + v
            a.append(f"{k}={fmt(v)}")
        self.lines.append((i, op, " ".join([str(i), op] + a)))
        self.meta[i] = m
        return i

    def __len__(self):
        return len(self.lines)


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{seed}:{prop}")
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"work-{prop}-", dir=self._workroot())
        self.drivers = None
        self.traces = 0
        self.mc = []          # model checking runs: dicts
        self.states = 0
        self.transitions = 0
        self.events_judged = 0
        self.events_run = 0
        self.rejects = []
        self.samples = []
        self.known = []
        self.byop = {}
        self.notes = {}

    @staticmethod
    def _workroot():
        d = os.path.join(BUILD, "work")
        os.makedirs(d, exist_ok=True)
        return d

    def prepare(self, profiles=("dev", "release")):
        self.drivers = build(profiles)
        log(f"built in {time.time() - self.t0:.1f}s")

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)
        for d in (self.drivers or {}).values():
            try:
                os.remove(d)
            except OSError:
                pass

    # ------------------------------------------------------------------------------- running scripts
    def _limits(self, cpu=240, mem=6):
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 10))
        resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def _exec(self, script, profile):
        """one driver process; returns its events, an operation that killed the process included"""
        base = os.path.join(self.work, re.sub(r"\W", "_", f"{script.name}-{profile}"))
        sp, op = base + ".s", base + ".o"
        lines = list(script.lines)
        with open(sp, "w") as f:
            f.write("\n".join(l[2] for l in lines) + "\n")
        env = dict(os.environ, MSDRIVER_CAPTURE="1", **script.env)
        with open(os.devnull, "rb") as null, open(base + ".e", "wb") as errf:
            p = subprocess.Popen([self.drivers[profile], op, sp], stdin=null, stdout=errf, stderr=errf, env=env,
                                 preexec_fn=lambda: self._limits(script.cpu, script.mem), start_new_session=True, cwd=self.work)
            try:
                rc = p.wait(timeout=600)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = -9
        if rc == 3:
            raise ToolError(f"driver refused script {script.name}: " + open(base + ".e").read()[-500:])
        evs = []
        if os.path.exists(op):
            for l in open(op):
                try:
                    evs.append(json.loads(l))
                except json.JSONDecodeError:
                    break
        if rc != 0:
            done = {e["id"] for e in evs}
            rest = [l for l in lines if l[0] not in done]
            if not rest:
                raise ToolError(f"driver ended with {rc} after {script.name}")
            evs.append({"id": rest[0][0], "op": rest[0][1], "res": "abort", "rc": rc})
        for f in (sp, op, base + ".e"):
            try:
                os.remove(f)
            except OSError:
                pass
        shutil.rmtree(op + ".d", ignore_errors=True)
        return self._annotate(script, evs, profile)

    def _annotate(self, script, evs, profile):
        for e in evs:
            m = script.meta.get(e["id"], {})
            e.update(m)
            e.setdefault("need", [])
            e.pop("msg", None)
            e["_script"], e["_profile"] = script.name, profile
        return evs

    NOCAPTURE = {"outlen": 0, "outfp": "cbf29ce484222325", "out": "", "unflushed": 0, "errlen": 0, "err": ""}

    def _tty_exec(self, script, profile):
        """the script in a session with a terminal of its own, on which the planned entries are typed"""
        base = os.path.join(self.work, re.sub(r"\W", "_", f"{script.name}-{profile}"))
        sp, op = base + ".s", base + ".o"
        with open(sp, "w") as f:
            f.write("\n".join(l[2] for l in script.lines) + "\n")
        notty = script.tty == "none"
        master, slave = (None, None) if notty else os.openpty()

        def pre():
            self._limits(script.cpu)
            signal.signal(signal.SIGHUP, signal.SIG_IGN)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            if not notty:
                fcntl.ioctl(slave, termios.TIOCSCTTY, 0)
                os.close(master)
                os.close(slave)
        with open(os.devnull, "rb") as null, open(base + ".e", "wb") as errf:
            p = subprocess.Popen([self.drivers[profile], op, sp], stdin=null if notty else slave, stdout=errf, stderr=errf,
                                 env=dict(os.environ, MSDRIVER_CAPTURE="1", **script.env), preexec_fn=pre,
                                 start_new_session=True, cwd=self.work)
        typed, shown = {}, {}
        order = [l[0] for l in script.lines]
        done, outpos = 0, 0

        def current():
            """the operation under way: what is on record is written before the next one starts"""
            nonlocal done, outpos
            try:
                with open(op, "rb") as f:
                    f.seek(outpos)
                    b = f.read()
            except FileNotFoundError:
                return None
            outpos += len(b)
            done += b.count(b"\n")
            return order[done] if done < len(order) else None

        def drain():
            n = b""
            if master is not None:
                while True:
                    try:
                        b = os.read(master, 65536)
                    except (BlockingIOError, OSError):
                        break
                    if not b:
                        break
                    n += b
            return n
        if not notty:
            os.set_blocking(master, False)
        def switches():
            for l in open(f"/proc/{p.pid}/status"):
                if l.startswith("voluntary_ctxt_switches"):
                    return int(l.split()[1])
            return 0
        still, last, deadline, woken = 0, None, time.time() + 600, None
        while p.poll() is None:
            if time.time() > deadline:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
            time.sleep(0.002)
            if master is None:
                continue
            cur = current()
            b = drain()
            if b and cur is not None:
                shown[cur] = shown.get(cur, b"") + b
            # waits for input: asleep, nothing left to read, and no time spent
            try:
                st = open(f"/proc/{p.pid}/stat").read().rsplit(")", 1)[1].split()
                unread = struct.unpack("i", fcntl.ioctl(slave, termios.TIOCINQ, b"\0\0\0\0"))[0]
            except OSError:
                continue
            sig = (cur, st[11], st[12], st[0], outpos)
            if st[0] != "S" or unread or sig != last:
                still, last = 0, sig
                continue
            # what was typed takes its time to get there: not before the process has been awake (an interruption that is
            # ignored wakes nobody: after a while it counts as having arrived)
            if woken is not None and woken[0] == cur and time.time() < woken[2]:
                try:
                    if switches() == woken[1]:
                        still = 0
                        continue
                except OSError:
                    continue
                woken = None
            still += 1
            # canonical mode reports no partial lines: give that case the same time
            if still < 6 or cur is None or "plan" not in script.meta[cur]:
                if still > 2500:
                    os.killpg(p.pid, signal.SIGKILL)      # asleep for good
                    still = 0
                continue
            still = 0
            plan, mine = script.meta[cur]["plan"], typed.setdefault(cur, [])
            k, t = (plan[len(mine)]["k"], bytes.fromhex(plan[len(mine)]["t"])) if len(mine) < len(plan) else ("eof", b"")
            mine.append({"k": k, "t": t.hex()})
            try:
                woken = (cur, switches(), time.time() + 4)
            except OSError:
                woken = None
            if len(mine) > 12:
                os.killpg(p.pid, signal.SIGKILL)
                continue
            if k == "hup":
                if t:
                    os.write(master, t)
                    time.sleep(0.05)
                os.close(slave)
                os.close(master)
                master = slave = None
                continue
            d = {"text": t + b"\n", "eof": b"\x04", "intr": b"\x03"}[k]
            while d:
                try:
                    d = d[os.write(master, d):]
                except BlockingIOError:
                    b = drain()
                    shown[cur] = shown.get(cur, b"") + b
        rc = p.wait()
        b = drain()
        for fd in (master, slave):
            if fd is not None:
                os.close(fd)
        if rc == 3:
            raise ToolError(f"driver refused script {script.name}: " + open(base + ".e").read()[-500:])
        evs = []
        if os.path.exists(op):
            for l in open(op):
                try:
                    evs.append(json.loads(l))
                except json.JSONDecodeError:
                    break
        if rc != 0:
            have = {e["id"] for e in evs}
            rest = [l for l in script.lines if l[0] not in have]
            if rest:
                evs.append({"id": rest[0][0], "op": rest[0][1], "res": "abort", "rc": rc})
        for f in (sp, op, base + ".e"):
            try:
                os.remove(f)
            except OSError:
                pass
        shutil.rmtree(op + ".d", ignore_errors=True)
        if b and evs:
            shown[evs[-1]["id"]] = shown.get(evs[-1]["id"], b"") + b
        for e in evs:
            if e["res"] != "abort" and e.get("interactive") and "plan" in script.meta[e["id"]]:
                t = typed.get(e["id"], [])
                plan = script.meta[e["id"]]["plan"]
                e["entries"] = t
                # what came late is counted with the next operation too
                e["tty"] = shown.get(e["id"], b"").hex()
                i = order.index(e["id"])
                if i + 1 < len(order):
                    e["tty"] += shown.get(order[i + 1], b"").hex()
                x = t[0] if t else plan[0]
                e["effpw"] = x["t"]
                fit = [y["k"] == "text" and len(y["t"]) <= 2048 for y in plan[:2]]
                if script.tty == "none":
                    e["ttyfault"] = True
                elif e["op"] == "sk_load":
                    e["ttyfault"] = not fit[0]
                else:
                    e["ttyfault"] = not (all(fit) and plan[0] == plan[1])
        return self._annotate(script, evs, profile)

    def run_tty(self, scripts, profiles=None):
        jobs = [(s, p) for s in scripts for p in (profiles or s.profiles)]
        # one process per core at most: how long a prompt stays unanswered must not depend on the load
        with cf.ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(lambda j: self._tty_exec(*j), jobs))
        out = []
        for (s, p), evs in zip(jobs, res):
            self.events_run += len(evs)
            out.append((s, p, evs))
        return out

    def run_threads(self, scripts, prelude=None, profile="dev"):
        """the scripts in one process, one thread each, started together; the values that the prelude makes are shared"""
        base = os.path.join(self.work, re.sub(r"\W", "_", "thr-" + scripts[0].name + profile))
        paths = []
        allscripts = [prelude or Script("none")] + list(scripts)
        for k, s in enumerate(allscripts):
            p = f"{base}.{k}.s"
            with open(p, "w") as f:
                f.write("\n".join(l[2] for l in s.lines) + "\n")
            paths.append(p)
        with open(os.devnull, "rb") as null, open(base + ".e", "wb") as errf:
            p = subprocess.Popen([self.drivers[profile], base + ".o"] + paths, stdin=null, stdout=errf, stderr=errf,
                                 preexec_fn=self._limits, start_new_session=True, cwd=self.work)
            try:
                rc = p.wait(timeout=600)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = -9
        if rc == 3:
            raise ToolError("driver refused threaded script: " + open(base + ".e").read()[-500:])
        out = []
        for k, s in enumerate(allscripts):
            evs = []
            fn = f"{base}.o.{'p' if k == 0 else k - 1}"
            if os.path.exists(fn):
                for l in open(fn):
                    try:
                        evs.append(dict(json.loads(l), **self.NOCAPTURE))
                    except json.JSONDecodeError:
                        break
            if rc != 0 and len(evs) < len(s.lines) and (k > 0 or prelude):
                n = s.lines[len(evs)]
                evs.append({"id": n[0], "op": n[1], "res": "abort", "rc": rc})
            self.events_run += len(evs)
            out.append(self._annotate(s, evs, profile))
        for f in glob.glob(base + ".*"):
            if os.path.isdir(f):
                shutil.rmtree(f, ignore_errors=True)
            else:
                os.remove(f)
        return out

    def run(self, scripts, profiles=None):
        """runs all scripts; list of (script, profile, events)"""
        jobs = [(s, p) for s in scripts for p in (profiles or s.profiles)]
        with cf.ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(lambda j: self._exec(*j), jobs))
        out = []
        for (s, p), evs in zip(jobs, res):
            self.events_run += len(evs)
            out.append((s, p, evs))
        return out

    # --------------------------------------------------------------------------------- trace checking
    DROP = ("_script", "_profile", "rc", "errfp")
    QUIET = ("rng", "drop", "free", "let", "clock", "edit", "splice")
    MEMORY = ("mem", "sum")          # only C21 judges what a call took, and nothing else
    C21 = MEMORY + ("id", "op", "res", "need", "in", "tc", "uc", "sigb", "sigsrc", "data", "legacy", "kind", "carrier", "comment", "outb",
                    "of", "n", "oks", "grown", "fds", "tasks")

    def judge(self, runs, prop=None, label=""):
        """TLC validates the recorded traces.  runs: list of (bundle, events)"""
        prop = prop or self.prop
        bundles = {}
        index = {}
        for b, evs in runs:
            bundles.setdefault(b, []).extend(evs)
        # the same event recorded twice (two profiles) is judged once
        seen, todo = set(), []
        for b, evs in bundles.items():
            l = []
            for e in evs:
                if e["res"] == "skip" or (e["res"] != "abort" and (e["op"] in self.QUIET or (e["op"] == "clone" and (prop == "C21" or "was" not in e)))):
                    continue
                j = {k: v for k, v in e.items() if (k in self.C21 if prop == "C21" else k not in self.DROP + self.MEMORY)}
                key = (b, json.dumps(j, sort_keys=True))
                if key in seen:
                    continue
                seen.add(key)
                index.setdefault(e["id"], e)
                l.append(j)
            if l:
                todo.append(l)
        n = sum(len(l) for l in todo)
        if n == 0:
            raise ToolError("nothing to judge")
        shards = [[] for _ in range(max(1, min(CORES, n // 40 + 1)))]
        for l in sorted(todo, key=len, reverse=True):
            min(shards, key=len).extend(l)
        shards = [s for s in shards if s]
        t = time.time()
        with cf.ThreadPoolExecutor(CORES) as ex:
            outs = list(ex.map(lambda x: self._tlc_trace(x[0], x[1], prop), enumerate(shards)))
        rejects = []
        for st, tr, rej in outs:
            self.states += st
            self.transitions += tr
            rejects += rej
        self.events_judged += n
        self.traces += len(todo)
        for l in todo:
            for e in l:
                k = e["op"] + ":" + e["res"]
                self.byop[k] = self.byop.get(k, 0) + 1
        if len(self.samples) < 4:
            e = random.Random(self.seed + len(self.samples)).choice(random.Random(self.seed).choice(todo))
            self.samples.append({k: (v if not isinstance(v, str) or len(v) < 200 else v[:200] + "...") for k, v in e.items()})
        log(f"{label or prop}: {n} events in {len(todo)} traces judged by TLC in {time.time() - t:.1f}s, {len(rejects)} rejected")
        for r in rejects:
            r["event"] = index.get(r["id"])
        self.rejects += rejects
        return rejects

    def _java(self, xmx, *extra):
        return ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", f"-Xmx{xmx}",
                f"-Djava.io.tmpdir={self.work}",
                "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:minisign.OracleOverrides",
                *extra, "-cp", os.path.join(BUILD, "classes") + ":" + TLAJARS, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE"]

    xmx = "2500m"

    def _tlc_trace(self, k, events, prop):
        d = tempfile.mkdtemp(prefix=f"trace{k}-", dir=self.work)
        tf = os.path.join(d, "trace.ndjson")
        with open(tf, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        cfg = os.path.join(d, "Trace.cfg")
        with open(cfg, "w") as f:
            f.write(f'SPECIFICATION Spec\nCONSTANTS TraceFile = "{tf}"\n Prop = "{prop}"\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n')
        r = subprocess.run(self._java(self.xmx) + ["-workers", "1", "-metadir", d, "-config", cfg, "Trace.tla"],
                           cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o = r.stdout
        if r.returncode != 0 or f'<<"TRACE-DONE", {len(events)}>>' not in o:
            keep = os.path.join(BUILD, "last-tool-error.txt")
            open(keep, "w").write(o)
            shutil.copy(tf, os.path.join(BUILD, "last-tool-error.ndjson"))
            raise ToolError(f"TLC failed on a trace ({keep}): " + o[-3000:])
        rej = []
        flat = re.sub(r"\s+", " ", o)
        for m in re.finditer(r'<< ?"REJECT", (-?\d+), "([^"]*)", "([^"]*)", "([^"]*)" ?>>', flat):
            x = {"id": int(m[1]), "op": m[2], "p": m[3], "why": m[4]}
            if x not in rej:
                rej.append(x)
        inc = re.findall(r'"INCONSISTENT", (\d+)', flat)
        if inc:
            shutil.copy(tf, os.path.join(BUILD, "last-tool-error.ndjson"))
            by = {str(e["id"]): e for e in events}
            log(f"NOTE: the abstract model predicted another outcome than the one allowed and observed ({len(inc)}): " + "; ".join(json.dumps({a: b for a, b in by.get(i, {}).items() if len(str(b)) < 90})[:700] for i in inc[:3]))
            if os.environ.get("VERIF_STRICT"):
                raise ToolError("the abstract and the concrete specification disagree")
            self.notes["predictions_not_realised"] = self.notes.get("predictions_not_realised", 0) + len(inc)
        if flat.count('"REJECT"') < len(rej):
            raise ToolError("cannot parse TLC output")
        m = re.search(r"(\d+) states generated, (\d+) distinct", o)
        shutil.rmtree(d, ignore_errors=True)
        return int(m[2]), int(m[1]), rej

    # -------------------------------------------------------------------------------- model checking
    def model(self, module, cfg=None, constants="", invariants=(), properties=(), emit=True, workers=4, simulate=None,
              timeout=800, spec="Spec", extra="", xmx="3g", view=None, label=None, allow_never=(), expect=None, coverage=True):
        """model checks spec/<module>.tla; returns the behaviours it printed.  A violated invariant of the
        specification itself is an error of the machinery: the design property does not depend on the code."""
        d = tempfile.mkdtemp(prefix=f"mc-{module}-", dir=self.work)
        c = os.path.join(d, "MC.cfg")
        with open(c, "w") as f:
            f.write(f"SPECIFICATION {spec}\n")
            if constants:
                f.write("CONSTANTS\n" + constants + "\n")
            for i in (invariants if not expect else [expect]):
                f.write(f"INVARIANT {i}\n")
            for i in properties:
                f.write(f"PROPERTY {i}\n")
            if view:
                f.write(f"VIEW {view}\n")
            f.write(extra + "\nCHECK_DEADLOCK FALSE\n")
        args = ["-workers", str(workers), "-metadir", d, "-config", c] + (["-coverage", "60"] if coverage else [])
        if simulate:
            args += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(self.seed)]
        t = time.time()
        try:
            r = subprocess.run(self._java(xmx) + args + [module + ".tla"], cwd=SPEC, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        o = r.stdout
        if expect:
            # a design known to be unsafe: shows that the invariant can fail
            if f"Invariant {expect} is violated" not in o:
                raise ToolError(f"{label or module}: {expect} should fail but does not: " + str(re.findall("(?m)^Error: .*", o)))
            self.mc.append({"module": module, "label": label or module, "expected_violation": expect})
            shutil.rmtree(d, ignore_errors=True)
            return []
        if r.returncode != 0 or "Error:" in o:
            keep = os.path.join(BUILD, "last-tool-error.txt")
            open(keep, "w").write(o)
            raise ToolError(f"TLC on {module} ({keep}): " + re.sub(r'"@@[^\n]*\n', "", o)[-3000:])
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", o) or \
            re.search(r"The number of states generated: (\d+)", o)
        gen = int(m[1]) if m else 0
        dis = int(m[2]) if m and m.lastindex > 1 else gen
        never = re.findall(r"^<(\w+) line.*>: 0:0$", o, re.M)
        never = [x for x in never if x != "Init"]
        if never and not simulate and allow_never is not True and set(never) - set(allow_never):
            raise ToolError(f"actions of {module} never taken: {never}")
        behs = []
        for l in o.splitlines():
            if l.startswith('"@@'):
                behs.append(json.loads(l)[2:])
        behs = [json.loads(b) for b in sorted(behs)]      # whatever the order of the workers
        self.mc.append({"module": module, "label": label or module, "states": dis, "transitions": gen,
                        "invariants": list(invariants) + list(properties), "behaviours": len(behs),
                        "mode": "simulation" if simulate else "exhaustive", "wall_s": round(time.time() - t, 1)})
        self.states += dis
        self.transitions += gen
        shutil.rmtree(d, ignore_errors=True)
        log(f"model {label or module}: {dis} states, {gen} transitions, {len(behs)} behaviours, {time.time() - t:.1f}s")
        return behs

    # ------------------------------------------------------------------------------------- reporting
    def finish(self, technique_note, extra_cov=None, scripts=()):
        known = load_known(self.prop)
        viol, kf = [], {}
        for r in self.rejects:
            e = r.get("event") or {}
            f = e.get("kf")
            if f and f in known and r["p"] == self.prop:
                kf[f] = known[f]
            else:
                viol.append(r)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "events_executed": self.events_run, "events_judged": self.events_judged,
               "events_by_outcome": self.byop, "models": self.mc, "samples": self.samples or [{"none": 1}],
               "how": technique_note}
        cov.update(extra_cov or {})
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, v in sorted(kf.items()):
            print(f"KNOWN-FINDING: property={self.prop} {v}", flush=True)
        rd = os.path.join(VERIF, "evidence", "replay")
        for old in glob.glob(os.path.join(rd, f"{self.prop}-*.txt")):
            os.remove(old)
        if not viol:
            log(f"{self.prop}: held ({self.events_judged} events, {self.traces} traces, {time.time() - self.t0:.0f}s)")
            return 0
        os.makedirs(rd, exist_ok=True)
        by = {s.name: s for s in scripts}
        shown = {}
        for r in viol:
            shown.setdefault((r["op"], r["why"]), []).append(r)
        for n, ((op, why), rs) in enumerate(sorted(shown.items())[:20]):
            r = rs[0]
            path = os.path.join(rd, f"{self.prop}-{n}.txt")
            e = r.get("event") or {}
            with open(path, "w") as f:
                f.write(f"property {self.prop}: {why} (operation {op}; {len(rs)} events)\n")
                f.write("event: " + json.dumps(e) + "\n")
                s = by.get(e.get("_script"))
                if s:
                    f.write(f"profile: {e.get('_profile')}\nscript (run it with harness/msdriver OUT SCRIPT):\n")
                    for l in s.lines:
                        f.write(l[2] + "\n")
                        if l[0] == r["id"]:
                            break
            log(f"{self.prop}: {why} [{op}, {len(rs)}x] {(e.get('label') or '')}")
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        return 1


def load_known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m and m[1] == prop:
                out[m[2]] = m[3].strip()
    return out
