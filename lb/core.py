"""Shared machinery: build the binaries under test, drive them, judge, report.

A check is a set of case kinds.  Each case is a function of (context, rng) which makes one
workload, runs the real binary on it, and hands what it observed to oracles.  Everything
random derives from VERIF_SEED, so a replay file names the check, the case kind and its seed."""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from decimal import Decimal

REPO = os.environ.get("LB_REPO", "/repo")   # elsewhere only when planting bugs by hand
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV_BUILD = {
    "RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
    "CARGO_INCREMENTAL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only",
}
TIMEOUT = 120


class Broken(Exception):
    """the machinery cannot decide (build failure and the like)"""


class BadOutput(Exception):
    """the program under test wrote something that is not an answer at all"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


BUILT_IN = "built in.jar"


def build(dest, jar=False):
    """build both binaries from /repo's working tree and copy them to dest; on demand, also a launcher which
    is told of a jar when it is built"""
    env = dict(os.environ)
    env.update(ENV_BUILD)
    env.setdefault("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.pop("LIMABEAN_UBERJAR", None)
    rust = os.path.join(REPO, "rust")
    # what the crate is built from may carry any time stamp: make sure it is looked at
    for base, _, files in os.walk(os.path.join(rust, "src")):
        for f in files:
            if f in ("lib.rs", "main.rs"):
                os.utime(os.path.join(base, f))
    t = time.time()
    out = {}

    def make(what, env, binaries, suffix=""):
        p = subprocess.run(["cargo", "build", "--locked", "--offline"] + what, cwd=rust, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            sys.stderr.write(p.stdout.decode(errors="replace")[-4000:])
            raise Broken("build failed")
        for b in binaries:
            src = os.path.join(rust, "target", "debug", b)
            dst = os.path.join(dest, b + suffix)
            shutil.copy2(src, dst)
            out[b + suffix] = dst
    if jar:
        make(["--bin", "limabean"], dict(env, LIMABEAN_UBERJAR=BUILT_IN), ["limabean"], "-jar")
    make(["--workspace"], env, ["limabean", "limabean-pod"])
    out["build_s"] = round(time.time() - t, 1)
    return out


# ---------------------------------------------------------------- driving the server

def dumps(x):
    """JSON with exact numbers"""
    if isinstance(x, Decimal):
        return getattr(x, "wire", None) or format(Decimal(x), "f")
    if isinstance(x, dict):
        return "{" + ",".join(json.dumps(k, ensure_ascii=False) + ":" + dumps(v) for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(dumps(v) for v in x) + "]"
    if isinstance(x, (set, frozenset)):
        return dumps(sorted(x))
    return json.dumps(x, ensure_ascii=False)


class Num(Decimal):
    """a number as written on the wire"""
    __slots__ = ("lit",)

    def __new__(cls, s):
        o = Decimal.__new__(cls, s)
        o.lit = s
        return o


def loads(s):
    return json.loads(s, parse_float=Num, parse_int=Num)


def req(method, id=1, **kw):
    d = {"jsonrpc": "2.0", "id": id, "method": method}
    d.update(kw)
    return dumps(d)


class Run:
    """one server process: what went in, what came out"""

    def __init__(self, lines, out, err, rc, hung=False):
        self.lines, self.out, self.err, self.rc, self.hung = lines, out, err, rc, hung
        self.raw = out.split(b"\n")
        if self.raw and self.raw[-1] == b"":
            self.raw.pop()

    def responses(self):
        r = []
        for l in self.raw:
            try:
                r.append(loads(l.decode("utf-8")))
            except ValueError as e:
                raise BadOutput(f"not a line of JSON ({e}): {l[:300]!r}")
        return r


class Ctx:
    def __init__(self, bins, tmp, tier, seed):
        self.bins, self.tmp, self.tier, self.seed = bins, tmp, tier, seed
        self.n = 0

    def path(self, name):
        d = os.path.join(self.tmp, str(os.getpid()))
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)

    def fresh(self):
        """an empty directory, private to this case"""
        self.n += 1
        d = os.path.join(self.tmp, str(os.getpid()), f"c{self.n}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def write(self, name, text):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf-8"))
        return p

    def env(self, **kw):
        e = {"PATH": "/usr/bin:/bin", "HOME": self.tmp, "RUST_BACKTRACE": "0", "LANG": "C.UTF-8"}
        e.update(kw)
        return e

    def serve(self, path, lines, env=None, cwd=None, eol="\n", final=True):
        data = eol.join(lines) + (eol if final and lines else "")
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogateescape")
        try:
            p = subprocess.run([self.bins["limabean-pod"], "serve", path], input=data, capture_output=True,
                               env=env or self.env(), cwd=cwd, timeout=TIMEOUT)
            return Run(lines, p.stdout, p.stderr, p.returncode)
        except subprocess.TimeoutExpired as e:
            return Run(lines, e.stdout or b"", e.stderr or b"", None, True)

    def ask(self, text, *methods, **kw):
        """serve a single-file ledger and issue requests with ids 1.."""
        p = self.write(kw.pop("name", "l.beancount"), text)
        lines = [m if isinstance(m, str) and m.startswith("{") else req(m, i + 1) if isinstance(m, str)
                 else req(m[0], i + 1, **m[1]) for i, m in enumerate(methods)]
        r = self.serve(p, lines, **kw)
        r.path = p
        return r


class Session:
    """a server spoken to a line at a time, its input kept open"""

    def __init__(self, ctx, path, env=None, cwd=None):
        self.err = tempfile.TemporaryFile(dir=ctx.tmp)
        self.p = subprocess.Popen([ctx.bins["limabean-pod"], "serve", path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env or ctx.env(), cwd=cwd, bufsize=0)
        self.buf = b""
        self.trouble = None

    def send(self, data):
        try:
            self.p.stdin.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))
            return True
        except OSError as e:
            self.trouble = f"input refused: {e}"
            return False

    def line(self, timeout=30):
        """the next line of output, or None"""
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                self.trouble = f"no answer within {timeout}s while input stays open"
                return None
            b = os.read(self.p.stdout.fileno(), 1 << 16)
            if not b:
                self.trouble = "output ended"
                return None
            self.buf += b
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def quiet(self, t=0.0):
        """whether nothing more has been written"""
        return not self.buf and not select.select([self.p.stdout], [], [], t)[0]

    def ask(self, line, timeout=30):
        if not self.send(line + "\n"):
            return None
        l = self.line(timeout)
        if l is None:
            return None
        try:
            return loads(l.decode("utf-8"))
        except ValueError as e:
            raise BadOutput(f"not a line of JSON ({e}): {l[:300]!r}")

    def close(self):
        """end of input: whatever else is written, and the exit status"""
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            rest = self.buf + self.p.stdout.read()
            rc = self.p.wait(TIMEOUT)
        except subprocess.TimeoutExpired:
            self.p.kill()
            rest, rc = b"", None
        self.p.stdout.close()
        self.err.seek(0)
        e = self.err.read()
        self.err.close()
        return rest, rc, e


# ---------------------------------------------------------------- results of one case

class Res:
    def __init__(self):
        self.viols = []
        self.stats = collections.Counter()
        self.sigs = set()
        self.evals = 0
        self.nontrivial = 0
        self.inconclusive = 0
        self.sample = None
        self.files = {}
        self.known = []

    def viol(self, tag, msg, **files):
        self.viols.append((tag, msg))
        self.files.update({k: (v if isinstance(v, str) else repr(v)) for k, v in files.items()})

    def obs(self, k, n=1):
        self.stats[k] += n

    def case(self, sig, nontrivial=True):
        """count one observed execution; sig identifies what it exercised"""
        self.evals += 1
        if nontrivial:
            self.nontrivial += 1
            self.sigs.add(hashlib.blake2b(repr(sig).encode(), digest_size=8).digest())

    def served(self, run, n=None, ok=(0,)):
        """the process answered every line and ended well"""
        n = len(run.lines) if n is None else n
        if run.hung:
            self.viol("hang", f"no end of output within {TIMEOUT}s of end of input",
                      requests="\n".join(run.lines))
            return False
        if run.rc not in ok or len(run.raw) != n:
            self.viol("died", f"exit {run.rc}, {len(run.raw)} of {n} answers; stderr {run.err.decode(errors='replace')[-400:]!r}",
                      requests="\n".join(run.lines))
            return False
        return True


# ---------------------------------------------------------------- running a check

_G = {}


def _worker_init(bins, tmp, tier, seed, checkname):
    import importlib
    _G["ctx"] = Ctx(bins, tmp, tier, seed)
    _G["check"] = importlib.import_module("lb.checks").CHECKS[checkname]


def _run_one(job):
    kind, seed = job
    ctx, check = _G["ctx"], _G["check"]
    res = Res()
    try:
        check.kinds[kind](ctx, random.Random(f"{kind}:{seed}"), res)
    except BadOutput as e:
        res.viol("output", str(e))
    except subprocess.TimeoutExpired as e:
        res.viol("hung", f"{e}")
    except (KeyError, TypeError, IndexError, AttributeError, ValueError, ArithmeticError) as e:
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        if os.path.basename(tb.tb_frame.f_code.co_filename) == "gen.py":      # no answer is read there
            res.viols = [("machinery", traceback.format_exc())]
            return kind, seed, res
        # the oracles read the answers by their documented shape; an answer they cannot read is wrong
        res.viol("shape", "the answer lacks its documented shape: " + traceback.format_exc())
    except Exception:
        res.viols = [("machinery", traceback.format_exc())]
    return kind, seed, res


class Check:
    """id, one-line rule, kinds {name: fn}, plan {tier: [(kind, count)]}, needs: stats that must be non-zero,
    probes {key: fn(ctx, res)} for recorded findings"""

    def __init__(self, id, rule, kinds, quick, thorough, needs=(), probes=None, assumptions=(), clj=False, jar=False):
        self.id, self.rule, self.kinds, self.needs = id, rule, kinds, needs
        self.plan = {"quick": quick, "thorough": thorough}
        self.probes = probes or {}
        self.assumptions = list(assumptions)
        self.clj = clj               # drives the Clojure half as well
        self.jar = jar               # drives a launcher which was told of a jar when built as well


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                f = dict(x.split("=", 1) for x in l.split()[1:3])
                out.setdefault(f["property"], {})[f["key"]] = l.split(None, 3)[3]
    return out


def plain_signals():
    """what is run is run with signals as they are by default, whatever we were run with"""
    for s in (signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGCHLD):
        if signal.getsignal(s) == signal.SIG_IGN:
            signal.signal(s, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, ())


def run_check(check, tier, seed, replay=None, scale=1.0):
    t0 = time.time()
    plain_signals()
    tmp = tempfile.mkdtemp(prefix=f"lb-{check.id}-")
    try:
        return _run_check(check, tier, seed, tmp, t0, replay, scale)
    except Broken as e:
        log(f"check {check.id}: cannot decide: {e}")
        return 2
    finally:
        if check.clj:
            from . import clj
            clj.drop()
            clj.sweep(tmp)
        shutil.rmtree(tmp, ignore_errors=True)


def _run_check(check, tier, seed, tmp, t0, replay, scale):
    bins = build(tmp, jar=check.jar)
    if check.clj:
        from . import clj
        bins["ljc"] = clj.build(tmp)
    log(f"{check.id}: built in {bins['build_s']}s")
    jobs = []
    if replay:
        jobs = [(replay["kind"], replay["seed"])] if replay["kind"] in check.kinds else []
    else:
        for kind, n in check.plan[tier]:
            for i in range(max(1, int(n * scale))):
                jobs.append((kind, f"{seed}:{i}"))
        # spread the kinds evenly, so that an early stop has seen them all
        order = random.Random(seed)
        order.shuffle(jobs)
    total = Res()
    bykind = collections.Counter()
    samples = []
    fails = []
    machinery = []
    stopped = False
    if jobs:
        with mp.Pool(8, _worker_init, (bins, tmp, tier, seed, check.id)) as pool:
            for kind, sd, r in pool.imap_unordered(_run_one, jobs, chunksize=1 if len(jobs) < 200 else 4):
                total.stats.update(r.stats)
                total.sigs |= r.sigs
                total.evals += r.evals
                total.nontrivial += r.nontrivial
                total.inconclusive += r.inconclusive
                bykind[kind] += 1
                if r.sample is not None and len(samples) < 3:
                    samples.append(r.sample)
                if r.viols:
                    if r.viols[0][0] == "machinery":
                        machinery.append((kind, sd, r))
                    else:
                        fails.append((kind, sd, r))
                    if len(fails) >= 5 or len(machinery) >= 5:
                        stopped = True
                        pool.terminate()
                        break
    # recorded findings, each on its own exact input
    known = known_findings().get(check.id, {})
    ctx = Ctx(bins, tmp, tier, seed)
    for key, fn in check.probes.items():
        if replay and replay["kind"] != "probe:" + key:
            continue
        r = Res()
        try:
            outcome = fn(ctx, r)      # None: holds; "known": fails exactly as recorded; else a violation
        except Exception:
            machinery.append(("probe:" + key, 0, r))
            r.viols = [("machinery", traceback.format_exc())]
            continue
        total.evals += 1
        total.obs("probe")
        if outcome == "known" and key in known:
            print(f"KNOWN-FINDING: property={check.id} {known[key]}")
            total.obs("known-finding")
        elif outcome is not None or r.viols:
            if not r.viols:
                r.viol("probe", f"{key}: {outcome}")
            fails.append(("probe:" + key, 0, r))
    for k, sd, r in machinery:
        log(f"machinery error in {k} {sd}:\n{r.viols[0][1]}")
    rc = 0
    if fails:
        rc = 1
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        fails.sort(key=lambda f: len("".join(f[2].files.values())))
        for kind, sd, r in fails[:3]:
            h = hashlib.blake2b(f"{kind}{sd}".encode(), digest_size=5).hexdigest()
            p = os.path.join(rdir, f"{check.id}-{h}.json")
            with open(p, "w", errors="replace") as f:
                json.dump({"property": check.id, "kind": kind, "seed": sd, "tier": tier,
                           "violations": r.viols[:10], "files": r.files}, f, indent=1, ensure_ascii=False)
            print(f"VIOLATION property={check.id} replay={p}")
            for tag, msg in r.viols[:2]:
                log(f"  [{kind}] {tag}: {msg[:1500]}")
    elif machinery:
        rc = 2
    elif not replay:
        missing = [k for k in check.needs if not total.stats.get(k)]
        if missing or (jobs and total.evals == 0):
            log(f"{check.id}: observed too little: {missing}; cannot vouch for the property")
            rc = 2
    if not replay:
        cov = {
            "evaluations": total.evals,
            "distinct_nontrivial": len(total.sigs),
            "rule": check.rule,
            "samples": samples or ["(none)"],
            "observed": dict(sorted(total.stats.items())),
            "cases_by_kind": dict(bykind),
            "inconclusive": total.inconclusive,
            "stopped_early": stopped,
            "build_s": bins["build_s"],
        }
        ev = {"property": check.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
        if check.assumptions:
            ev["assumptions"] = check.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{check.id}.json"), "w", errors="replace") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    log(f"{check.id}: {total.evals} executions, {len(total.sigs)} distinct, {total.inconclusive} inconclusive, "
        f"{len(fails)} failing, {time.time() - t0:.1f}s")
    return rc
