"""The Clojure half of the code under test, run by the interpreter in /verif/ljc: one process of it per worker, given a job at a
time.  What the interpreter does not know is a gap of the machinery and never a verdict."""
import glob
import hashlib
import json
import os
import select
import shutil
import subprocess
import tempfile
import time
from decimal import Decimal

from . import core
from .core import VERIF, Broken

LJC = os.path.join(VERIF, "ljc")


def build(tmp):
    """compile the interpreter, once per version of its sources; the directory of its classes"""
    srcs = sorted(glob.glob(os.path.join(LJC, "src", "ljc", "*.java")))
    h = hashlib.blake2b(digest_size=8)
    for s in srcs:
        h.update(open(s, "rb").read())
    base = os.path.join(VERIF, ".cache")
    dest = os.path.join(base, "ljc-" + h.hexdigest())
    if os.path.isdir(dest):
        return dest
    try:
        os.makedirs(base, exist_ok=True)
    except OSError:
        base = tmp
        dest = os.path.join(base, "ljc")
    work = tempfile.mkdtemp(prefix="ljc-build-", dir=base)
    p = subprocess.run(["javac", "-encoding", "UTF-8", "-nowarn", "-d", work] + srcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise Broken("the interpreter does not compile: " + p.stdout.decode(errors="replace")[-2000:])
    try:
        os.rename(work, dest)
    except OSError:          # another check was first
        shutil.rmtree(work, ignore_errors=True)
    return dest


def java(classes, path, heap="768m"):
    return ["java", "-Xss2m", "-Xmx" + heap, "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-UsePerfData", "-Xshare:auto", "-Dfile.encoding=UTF-8",
            "-Dljc.lib=" + os.path.join(LJC, "lib"), "-Dljc.path=" + ":".join(path), "-cp", classes, "ljc.Main"]


def jar(classes, dest):
    """a jar of the interpreter, running limabean.main; the launcher takes it for limabean's own"""
    import zipfile
    if not os.path.exists(dest):
        with zipfile.ZipFile(dest + ".%d" % os.getpid(), "w") as z:
            z.writestr("META-INF/MANIFEST.MF", "Manifest-Version: 1.0\nMain-Class: ljc.Launch\n\n")
            for f in sorted(glob.glob(os.path.join(classes, "ljc", "*.class"))):
                z.write(f, "ljc/" + os.path.basename(f))
        os.rename(dest + ".%d" % os.getpid(), dest)
    return dest


def sources():
    return [os.path.join(core.REPO, "clj", "src"), os.path.join(core.REPO, "clj", "test-plugins", "src"), os.path.join(LJC, "plugins")]


class Gap(Exception):
    """the interpreter met something it does not know"""


class Kw(str):
    """a keyword, or a symbol"""
    def __repr__(self):
        return ":" + str(self)


class Dec(Decimal):
    """a decimal as Clojure prints it"""
    def __new__(cls, s):
        self = Decimal.__new__(cls, s)
        self.text = s
        return self


class Date(str):
    pass


class Other(str):
    pass


class Map(dict):
    pass


class Key(tuple):
    """a vector as the key of a map, or an item of a set"""


def frozen(x):
    if isinstance(x, list):
        return Key(frozen(y) for y in x)
    if isinstance(x, dict):
        return Key(sorted(((frozen(k), frozen(v)) for k, v in x.items()), key=repr))
    return x


def decode(x):
    if isinstance(x, list):
        return [decode(y) for y in x]
    if isinstance(x, dict):
        (t, v), = x.items()
        if t == "m":
            return Map((frozen(decode(k)), decode(w)) for k, w in v)
        if t == "s":
            return frozenset(frozen(decode(w)) for w in v)
        if t == "k":
            return Kw(v)
        if t == "d":
            return Dec(v)
        if t in ("i", "n"):
            return int(v)
        if t == "f":
            return float(v)
        if t == "t":
            return Date(v)
        return Other(t + ":" + v)
    return x


def edn(x):
    """Python as EDN text on one line"""
    if x is None:
        return "nil"
    if x is True or x is False:
        return str(x).lower()
    if isinstance(x, Kw):
        return ":" + str(x)
    if isinstance(x, str):
        b = ['"']
        for c in x:
            b.append({'"': '\\"', "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c, c if c >= " " and c not in "\x85\u2028\u2029" else "\\u%04x" % ord(c)))
        return "".join(b) + '"'
    if isinstance(x, (list, tuple)):
        return "[" + " ".join(edn(y) for y in x) + "]"
    if isinstance(x, dict):
        return "{" + ", ".join(edn(k) + " " + edn(v) for k, v in x.items()) + "}"
    if isinstance(x, (set, frozenset)):
        return "#{" + " ".join(edn(y) for y in sorted(x, key=repr)) + "}"
    if isinstance(x, Decimal):
        return str(x) + "M"
    if isinstance(x, int):
        return str(x)
    raise TypeError(x)


class Result:
    """one evaluation: its value, or the exceptions it threw (outermost first), and its output"""

    def __init__(self, r):
        self.thrown = decode(r["thrown"]) if r.get("thrown") is not None else None
        self.value = decode(r["value"]) if self.thrown is None and "value" in r else None
        self.out, self.err = r["out"], r["err"]

    def message(self):
        return None if self.thrown is None else [t.get(Kw("message")) for t in self.thrown]

    def user_error(self):
        for t in self.thrown or ():
            d = t.get(Kw("data"))
            if isinstance(d, dict) and Kw("user-error") in d:
                return d[Kw("user-error")]


class Answer:
    def __init__(self, a):
        self.loaded = None
        if a["loaded"] is not None:
            l = {str(k): v for k, v in decode(a["loaded"]).items()}
            self.loaded = Result({"thrown": None, "out": l["out"], "err": l["err"]})
            self.loaded.thrown = l.get("thrown")
        self.results = [Result(r) for r in a["results"]]
        self.live = a["live"]


class Repl:
    def __init__(self, ctx, env=None):
        self.ctx = ctx
        d = ctx.path("bin")
        os.makedirs(d, exist_ok=True)
        pod = os.path.join(d, "limabean-pod")
        if not os.path.exists(pod):
            os.symlink(ctx.bins["limabean-pod"], pod)
        e = ctx.env()
        e["PATH"] = d + ":" + os.environ.get("PATH", "/usr/bin:/bin") + ":/usr/bin:/bin"
        e.update(env or {})
        self.err = tempfile.TemporaryFile(dir=ctx.tmp)
        self.p = subprocess.Popen(java(ctx.bins["ljc"], sources()) + ["-m", "ljc.driver"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=e, cwd=ctx.fresh(), bufsize=0, start_new_session=True)
        self.buf = b""
        note(ctx.tmp, self.p.pid)

    def ask(self, job, timeout=core.TIMEOUT):
        """the answer, or None when there was none in time or the process ended"""
        try:
            self.p.stdin.write((edn(job) + "\n").encode("utf-8", "surrogateescape"))
        except OSError:
            return None
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                self.hung = True
                return None
            b = os.read(self.p.stdout.fileno(), 1 << 16)
            if not b:
                return None
            self.buf += b
        l, self.buf = self.buf.split(b"\n", 1)
        a = json.loads(l.decode("utf-8"))
        if "gap" in a:
            raise Gap(a["gap"])
        if "machinery" in a:
            raise Gap("machinery: " + a["machinery"])
        return a

    def trouble(self):
        self.err.seek(0)
        return self.err.read().decode(errors="replace")[-1500:]

    def close(self):
        import signal
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        note(self.ctx.tmp, -self.p.pid)
        for f in (self.p.stdin, self.p.stdout, self.err):
            f.close()


def note(tmp, pid):
    """started (or, negative, ended): a file per process, so that a pool which is ended abruptly leaves none running"""
    p = os.path.join(tmp, "repl.%d" % abs(pid))
    if pid > 0:
        open(p, "w").close()
    elif os.path.exists(p):
        os.remove(p)


def sweep(tmp):
    for p in glob.glob(os.path.join(tmp, "repl.*")):
        pid = int(p.rsplit(".", 1)[1])
        try:
            # ours only while it is still the leader of the session we made it
            if os.getsid(pid) == pid:
                os.killpg(pid, 9)
        except OSError:
            pass


_repl = {}


def repl(ctx):
    r = _repl.get(os.getpid())
    if r is None or r.p.poll() is not None:
        if r is not None:
            r.close()
        r = _repl[os.getpid()] = Repl(ctx)
    return r


def drop():
    r = _repl.pop(os.getpid(), None)
    if r is not None:
        r.close()


def run(ctx, res, path, evals=(), keep=False):
    """load a beanfile as the REPL does and evaluate expressions; None when that is not possible, which is then reported"""
    job = {Kw("load"): path, Kw("evals"): list(evals), Kw("keep"): keep}
    for attempt in (1, 2):
        r = repl(ctx)
        a = r.ask(job)
        if a is not None:
            return Answer(a)
        t = r.trouble()
        hung = getattr(r, "hung", False)
        drop()
        if "LJC-UNSUPPORTED" in t:
            raise Gap(t)
    res.viol("hung" if hung else "ended", ("no answer within %ds" % core.TIMEOUT if hung else "the REPL ended") + "; stderr " + repr(t))
    return None
