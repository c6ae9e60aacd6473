"""Checks of the command line: tabulating, the launcher, its health check."""
import json
import os
import random
import re
import subprocess
import unicodedata

from . import core, gen
from .core import TIMEOUT

# ------------------------------------------------------------- C20: tabulate

# widths on which everyone agrees
PLAIN = ["", "a", "A99", "x y", "1.25", "-12,345.50", "Assets:Bank", "USD", "caf\u00e9", "\u00a3", "  pad", "trail  ", "q\"uote", "back\\slash", "'", "{}", "|", "\u2014"]
CONTROL = ["two\nlines", "dos\r\nlines", "\r", "a\rb", "C:\\new\\run", "\\r\\n", "\x01", "\x1b[0m", "\x7f", "\\u0041", "\u2028", "\n"]
WIDE = ["\u6771\u4eac", "\u98df\u3079\u7269", "\uff21"]


def width(s):
    return sum(2 if unicodedata.east_asian_width(c) in "WF" else 1 for c in s.replace("\r\n", "\n"))


def spaces(n):
    return " " * n


class Table:
    """a table by its meaning: rows of cells under columns; what each line must be"""

    def __init__(self, rng):
        r = self.r = rng
        self.gutter = r.choice(["  ", " ", "", " | ", "\t", "--"])

    def text(self):
        return self.r.choice(PLAIN + (WIDE if self.r.random() < 0.3 else []) + (CONTROL if self.r.random() < 0.1 else []))

    def number(self):
        r = self.r
        s = str(r.randrange(0, 10 ** r.randrange(1, 9)))
        if r.random() < 0.3:
            s = "{:,}".format(int(s))
        if r.random() < 0.4:
            s = "-" + s
        i = len(s)
        if r.random() < 0.7:
            s += "." + str(r.randrange(10 ** r.randrange(1, 5)))
        return s, i

    def column(self, depth):
        """a kind of cell"""
        r = self.r
        k = r.randrange(10)
        if k < 3:
            return ("aligned", r.choice(["left", "right", "centre"]))
        if k < 6:
            return ("anchored",)
        if k < 7:
            return ("mixed",)
        if depth < 2:
            return ("table", r.choice(["  ", " ", "/"]), [self.column(depth + 1) for _ in range(r.randrange(1, 4))], r.random() < 0.6)
        return ("aligned", "left")

    def cell(self, c):
        """JSON of one cell"""
        r = self.r
        if r.random() < 0.1:
            return "empty"
        if c[0] == "aligned":
            return {"aligned": [self.text(), c[1]]}
        if c[0] == "mixed":
            return {"aligned": [self.text(), r.choice(["left", "right", "centre"])]}
        if c[0] == "anchored":
            s, i = self.number()
            return {"anchored": [s, i]}
        row = lambda: {"row": [[self.cell(x) for x in c[2]], c[1]]}
        if c[3]:
            return {"stack": [row() for _ in range(r.choice([0, 1, 2, 3]))]}
        return row()

    def make(self):
        r = self.r
        cols = [self.column(0) for _ in range(r.randrange(1, 6))]
        rows = [{"row": [[self.cell(c) for c in cols], self.gutter]} for _ in range(r.choice([0, 1, 1, 2, 5, 12]))]
        k = r.randrange(12)
        if k == 0:
            return "empty"
        if k == 1:
            return self.cell(cols[0])
        if k == 2 and rows:
            return rows[0]
        if k == 3:
            # a heading over the table
            return {"stack": [{"aligned": [self.text(), "left"]}, "empty", {"stack": rows}]}
        if k == 4:
            # rows of unequal length
            for x in rows:
                if r.random() < 0.4:
                    x["row"][0] = x["row"][0][:r.randrange(1, len(cols) + 1)]
        return {"stack": rows}


# the meaning of a table: measure, then draw

def measure(c):
    """(width, anchor, (columns, gutter) or None)"""
    if c == "empty":
        return 0, None, None
    (k, v), = c.items()
    if k == "aligned":
        return width(v[0]), None, None
    if k == "anchored":
        w = width(v[0])
        return w, (v[1], w - v[1]), None
    if k == "row":
        cs = [measure(x) for x in v[0]]
        return total(cs, v[1]), None, (cs, v[1])
    g = (0, None, None)
    for x in v:
        g = merge(g, measure(x))
    return g


def total(cs, gutter):
    return sum(x[0] for x in cs) + max(0, len(cs) - 1) * width(gutter)


def merge(a, b):
    if a[2] and b[2]:
        n = max(len(a[2][0]), len(b[2][0]))
        cs = [merge(a[2][0][i], b[2][0][i]) if i < len(a[2][0]) and i < len(b[2][0]) else (a[2][0] if i < len(a[2][0]) else b[2][0])[i] for i in range(n)]
        ch = (cs, a[2][1] if width(a[2][1]) >= width(b[2][1]) else b[2][1])
    else:
        ch = a[2] or b[2]
    w = total(*ch) if ch else max(a[0], b[0])
    an = (max(a[1][0], b[1][0]), max(a[1][1], b[1][1])) if a[1] and b[1] else a[1] or b[1]
    return w, an, ch


class Unclear(Exception):
    """a table whose drawing no two people would agree upon"""


def draw(c, g):
    """the next line of a cell, and what remains of it"""
    w, an, ch = g
    if c == "empty" or c is None:
        return spaces(w), None
    (k, v), = c.items()
    if k == "aligned":
        n = w - width(v[0])
        if n < 0:
            raise Unclear
        l = 0 if v[1] == "left" else n if v[1] == "right" else n // 2
        return spaces(l) + v[0] + spaces(n - l), None
    if k == "anchored":
        return spaces(an[0] - v[1]) + v[0] + spaces(an[1] - (width(v[0]) - v[1])), None
    if k == "row":
        if not v[0]:
            return spaces(w), None
        out, rest = [], []
        for i, gc in enumerate(ch[0]):
            t, q = draw(v[0][i] if i < len(v[0]) else None, gc)
            out.append(t)
            rest.append(q)
        return ch[1].join(out), (None if all(q is None for q in rest) else {"row": [[q or "empty" for q in rest], v[1]]})
    if not v:
        return spaces(w), None
    t, q = draw(v[0], g)
    left = ([q] if q is not None else []) + v[1:]
    # nothing but emptiness left is nothing left
    return t, (None if all(x == "empty" for x in left) else {"stack": left})


def drawn(c):
    g = measure(c)
    lines = []
    while c is not None and c != "empty":
        t, c = draw(c, g)
        lines.append(t)
    return "\n".join(lines)


def tabulate(ctx, data, env=None):
    p = subprocess.run([ctx.bins["limabean-pod"], "tabulate"], input=data, capture_output=True, env=env or ctx.env(), timeout=TIMEOUT)
    return p.stdout, p.stderr, p.returncode


# what anyone may measure as he likes, so long as nothing is changed by it
ODD = ["a\tb", "\t", "\ttab", "e\u0301", "\U0001f600", "\u200b", "\u00a0", "x\u00ad", "\ufeffy", "\u202eabc", "\x1b[1mbold\x1b[0m", "\x7f", "\u2028", "trail\t", "\r"]


def uniform(rng):
    """rows which are all the same need no padding, whatever the width of what is in them; and there may be very many"""
    cells = [rng.choice(ODD if rng.random() < 0.5 else PLAIN) for _ in range(rng.randrange(1, 5))]
    gutter = rng.choice(["  ", " ", "", " | ", "--"])
    n = rng.choice([1, 2, 5, 50]) if rng.random() < 0.75 else rng.choice([3000, 9000, 40000, 120000])
    how = [rng.choice(["left", "right", "centre"]) for _ in cells]
    row = {"row": [[{"aligned": [t, h]} for t, h in zip(cells, how)], gutter]}
    return {"stack": [row] * n}, (gutter.join(cells) + "\n") * n


def kind_uniform(ctx, rng, res):
    c, want = uniform(rng)
    t = json.dumps(c, ensure_ascii=False)
    out, err, rc = tabulate(ctx, t.encode())
    res.case((want[:60], len(c["stack"])))
    res.obs("tabulated")
    res.obs("uniform")
    if len(t) > 200000:
        res.obs("large")
    if (out.decode(errors="replace"), rc) != (want, 0) or err:
        res.viol("uniform", f"exit {rc}, drew {out.decode(errors='replace')[:600]!r}..., {len(out)} bytes, expected {want[:600]!r}..., {len(want.encode())} bytes; {err[-300:]!r}", json=t[:2000])


def kind_tabulate(ctx, rng, res):
    """a table is drawn just as described"""
    if rng.random() < 0.1:
        return kind_uniform(ctx, rng, res)
    c = Table(rng).make()
    try:
        want = drawn(c) + "\n"
    except Unclear:
        res.inconclusive += 1
        return
    ascii_only = rng.random() < 0.3
    # one that borrows its text may not be escaped: gutters are never written with escapes here
    t = json.dumps(c, ensure_ascii=False, indent=rng.choice([None, None, 1]), separators=rng.choice([None, (",", ":")]))
    if "\\t" in t:
        res.obs("tab")
        t = t.replace('"\\t"', '"  "')
        c = json.loads(t)
        want = drawn(c) + "\n"
    if "\n" in t and rng.random() < 0.6:
        # how it is spread over lines is of no consequence
        t = re.sub("\n", lambda m: rng.choice(["\n", "\n\n", "\r\n", "\n\t\n ", "\n" * 5]), t)
    t = rng.choice(["", "", " ", "\n", "\n\n"]) + t + rng.choice(["", "\n", "  \n", "\n\n"])
    out, err, rc = tabulate(ctx, t.encode())
    res.case((len(want.split("\n")), max(map(len, want.split("\n"))), shape(c)))
    res.obs("tabulated")
    res.obs("lines", want.count("\n"))
    if any(ord(x) > 0x3000 for x in t):
        res.obs("wide")
    if res.sample is None:
        res.sample = {"json": t[:500], "drawn": want[:500]}
    if (out.decode(errors="replace"), rc) != (want, 0):
        res.viol("tabulate", f"exit {rc}, drew {out.decode(errors='replace')[:600]!r}, expected {want[:600]!r}; {err[-300:]!r}", json=t)
    elif err:
        res.viol("tabulate", f"wrote {err[:300]!r} to standard error", json=t)


def shape(c):
    if isinstance(c, str):
        return "e"
    (k, v), = c.items()
    return k[0:2] if k in ("aligned", "anchored") else (k, len(v[0]) if k == "row" else len(v))


BADJSON = ["", " ", "{", "nonsense", "[]", "{}", "1", '"full"', '{"aligned":["x"]}', '{"aligned":["x","middle"]}', '{"anchored":["x"]}', '{"anchored":["x",-1]}', '{"row":[]}', '{"row":[[],1]}',
           '{"stack":{}}', '{"stack":["empty"]} x', '{"stack":["empty"]', '{"rows":[]}', '{"aligned":[1,"left"]}', '{"aligned":["x","left"],"anchored":["y",1]}']


def kind_untabulable(ctx, rng, res):
    """what is no table is refused: reason and input on standard error, nothing on standard output"""
    if rng.random() < 0.5:
        t = rng.choice(BADJSON)
    else:
        t = json.dumps(Table(rng).make(), ensure_ascii=False, indent=rng.choice([None, None, 1])).replace('"\\t"', '"  "')
        if t == '"empty"':
            t = "empty"
        elif rng.random() < 0.5:
            t = t[:rng.randrange(1, len(t))]
        else:
            t += rng.choice(["x", "}", "]", ","])
    raw = t.encode()
    if rng.random() < 0.1:
        raw += b"\xff"
    out, err, rc = tabulate(ctx, raw)
    res.case((t[:20], len(t)))
    res.obs("untabulable")
    e = err.decode(errors="replace")
    if rc != 1 or out or "panicked" in e or not e.startswith("limabean-pod "):
        res.viol("untabulable", f"exit {rc}, {out[:200]!r}, {e[:300]!r}", json=t)
    elif raw == t.encode() and not e.rstrip("\n").endswith(t.rstrip("\n")):
        res.viol("untabulable", f"the input is not shown: {e[:400]!r}", json=t)


# ------------------------------------------------------------- C21: the launcher

FAKE = r'''#!/bin/sh
d="$(dirname "$0")"
printf '%s\0' "$(basename "$0")" "$@" >> "$d/calls"
pwd -P >> "$d/where"
cat "/proc/$$/environ" > "$d/environ"
printf '\n' >> "$d/calls"
case "$*" in --version) [ -e "$d/bad-version" ] && { echo "no such vm" >&2; echo "for want of memory" >&2; . "$d/bad-version"; }; [ -e "$d/warned" ] && echo "warning: be warned" >&2; [ -e "$d/silent" ] && exit 0; [ -e "$d/odd-version" ] && printf 'odd \351\000\377 \033[1m\n'; [ -e "$d/long-version" ] && printf 'fake 1.0 %0300d\n%0400d\n' 1 2 || printf 'fake 1.0\n'; printf 'release 2\n'; exit 0;; esac
[ -e "$d/slow" ] && sleep 0.05
printf 'out %s\n' "$LB_MARK"
printf 'err\n' >&2
cat
kill_self="$(cat "$d/signal" 2>/dev/null)"
[ -n "$kill_self" ] && kill -$kill_self $$
exit "$(cat "$d/rc" 2>/dev/null || echo 0)"
'''

ARGS = ["--beanfile", "x.beancount", "-v", "--verbose", "--eval", '(show (inventory))', "", "two words", "caf\u00e9 \u6771", "-h", "--help", "*", "$HOME", "`x`", "a\nb", "--", "-", "'q'",
        '"q"', "--version", "health", "-version", "--health", "tabulate", "--color=never", "\\", "\udcff", "caf\udce9 x", "--beanfile=\udcfe.beancount"]
# of no concern to the launcher, but handed on
ODDENV = [("JAVA_TOOL_OPTIONS", "-Xmx1g"), ("LIMABEAN_POD_LOG", "/nowhere/log"), ("LIMABEAN_USER_CLJ", "u ser.clj"), ("LIMABEAN_BEANFILE", "x.beancount"),
          ("EMPTY", ""), ("caf\udce9", "\udcff"), ("CLJ_CONFIG", "/etc/clj"), ("CLASSPATH", "a:b"), ("LANG", "de_DE"), ("LIMABEAN_X", "a=b\nc")]
PATHS = ["/opt/limabean", '/a "quoted" name', "C:\\Users\\x", "/it's", "relative/dir", "/with space/clj", "/caf\u00e9", "/a.b-c_d", "~/limabean", "/a/~/b", "$HOME/x", "/a//b/", "../up/./x", "/a\tb", "{x}", "/%41", "file:///x", "/x;y", "#x"]


def version(ctx):
    with open(os.path.join(core.REPO, "rust/Cargo.toml")) as f:
        return re.search(r'^version\s*=\s*"([^"]+)"', f.read(), re.M).group(1)


def calls(d):
    p = os.path.join(d, "calls")
    if not os.path.exists(p):
        return []
    b = open(p, "rb").read()
    return parse_calls(b)


def parse_calls(b):
    out = []
    for c in b.split(b"\0\n"):
        if c:
            out.append([a.decode(errors="surrogateescape") for a in c.split(b"\0")])
    return out


class World:
    """a scratch PATH with stand-ins for clojure and java, and an environment"""

    def __init__(self, ctx, rng):
        self.d = ctx.fresh()
        self.bin = os.path.join(self.d, "bin")
        os.mkdir(self.bin)
        self.have = {t for t in ("clojure", "java") if rng.random() < 0.9}
        for t in self.have:
            p = os.path.join(self.bin, t)
            with open(p, "w") as f:
                f.write(FAKE)
            os.chmod(p, 0o755)
        self.env = {"PATH": self.bin + ":/usr/bin:/bin", "HOME": self.d, "LB_MARK": "m%d" % rng.randrange(1000)}
        # a java or clojure of the system is not to be found
        self.tools = os.path.join(self.d, "tools")
        os.mkdir(self.tools)
        for t in ("sh", "cat", "basename", "dirname", "sleep", "printf", "kill"):
            for base in ("/usr/bin", "/bin"):
                if os.path.exists(os.path.join(base, t)):
                    os.symlink(os.path.join(base, t), os.path.join(self.tools, t))
                    break
        self.env["PATH"] = self.bin + ":" + self.tools
        self.root = self.jar = self.deps = None
        if rng.random() < 0.4:
            self.root = self.env["LIMABEAN_CLJ_LOCAL_ROOT"] = rng.choice(PATHS + ["", self.bin, "bin", self.d])
        if rng.random() < 0.5:
            self.jar = rng.choice(["limabean.jar", "dir with space/l.jar", "missing.jar", "caf\udce9.jar"])
            if rng.random() < 0.5:
                self.jar = os.path.join(self.d, self.jar)
            self.env["LIMABEAN_UBERJAR"] = self.jar
            if "missing" not in self.jar:
                q = os.path.join(self.d, self.jar)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                k = rng.random()
                if k < 0.6:
                    open(q, "w").close()
                elif k < 0.75:
                    # a way to where there is one
                    open(q + ".real", "w").close()
                    os.symlink(os.path.basename(q) + ".real", q)
                else:
                    # a way to where there is none
                    os.symlink("gone", q)
        if rng.random() < 0.4:
            self.deps = self.env["LIMABEAN_CLJ_DEPS"] = rng.choice(['my/plugins {:local/root "/p"}', 'a/b {:mvn/version "1.0"} c/d {:mvn/version "2"}', "caf\u00e9/x {}",
                                                                          'x/y {:local/root "/a  b"}', 'x/y {:local/root "/a\nb\t"}', 'x/y {:local/root "/q\\\\\"r"} z/w {}'])
        # the launcher may have been told of a jar when it was built
        self.launcher = "limabean-jar" if rng.random() < 0.35 else "limabean"
        if self.launcher == "limabean-jar":
            if rng.random() < 0.7:
                open(os.path.join(self.d, core.BUILT_IN), "w").close()
            if self.jar is None:
                self.jar = core.BUILT_IN
        self.program = "java" if self.jar is not None and self.root is None else "clojure"

    def expected(self, args, ver):
        if self.program == "java":
            return ["java", "--enable-native-access=ALL-UNNAMED", "-jar", self.jar] + args
        q = (self.root or "").replace("\\", "\\\\").replace('"', '\\"')
        coord = f'{{:local/root "{q}"}}' if self.root is not None else f'{{:mvn/version "{ver}"}}'
        extra = " " + self.deps if self.deps is not None else ""
        return ["clojure", "-J--enable-native-access=ALL-UNNAMED", "-Sdeps", f"{{:deps {{io.github.tesujimath/limabean {coord}{extra}}}}}", "-M", "-m", "limabean.main"] + args

    def run(self, ctx, args, data=b""):
        p = subprocess.run([ctx.bins[self.launcher]] + args, input=data, capture_output=True, env=self.env, cwd=self.d, timeout=TIMEOUT)
        return p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), p.returncode

    def shows(self, err, path):
        """a path as well as it can be shown"""
        return path.encode("utf-8", "surrogateescape").decode(errors="replace") in err


def kind_launch(ctx, rng, res):
    """the right program, once, with every argument as given; its streams and its end passed through"""
    w = World(ctx, rng)
    args = [rng.choice(ARGS) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
    if rng.random() < 0.06:
        args = [rng.choice(ARGS) for _ in range(rng.choice([65, 300, 1100]))] if rng.random() < 0.6 else args + ["x" * rng.choice([300, 5000, 70000, 120000])]
        res.obs("many-args")
    for k, v in ODDENV:
        if rng.random() < 0.1:
            w.env[k] = v
    if args and args[0] == "health":
        args[0] = "x"
    rc = rng.choice([0, 0, 1, 2, 7, 42, 101, 255])
    with open(os.path.join(w.bin, "rc"), "w") as f:
        f.write(str(rc))
    sig = None
    if rng.random() < 0.08:
        sig = rng.choice(["TERM", "INT", "HUP", "KILL", "USR1"])
        with open(os.path.join(w.bin, "signal"), "w") as f:
            f.write(sig)
    data = rng.choice([b"", b"hello\nworld\n", "caf\u00e9".encode() * 1000])
    out, err, got = w.run(ctx, args, data)
    ver = version(ctx)
    res.case((w.program, w.program in w.have, bool(w.root), bool(w.jar), bool(w.deps), tuple(args), rc, sig))
    res.obs("launched-" + w.program)
    if w.program == "java" and w.jar == core.BUILT_IN:
        res.obs("jar-built-in")
    if res.sample is None:
        res.sample = {"env": {k: v for k, v in w.env.items() if k.startswith("LIMA")}, "args": args}
    what = f"args {args}, env { {k: v for k, v in w.env.items() if k.startswith('LIMA')} }"
    cs = calls(w.bin)
    if w.program not in w.have:
        res.obs("launch-missing")
        if got != 1 or w.program not in err or "limabean" not in err or cs:
            res.viol("missing", f"{what}: {w.program} is not there, but exit {got}, {err[:300]!r}, ran {cs}")
        return
    exp = w.expected(args, ver)
    if cs != [exp]:
        res.viol("argv", f"{what}: ran {cs}, expected {[exp]}")
        return
    where = open(os.path.join(w.bin, "where")).read()
    if where != os.path.realpath(w.d) + "\n":
        res.viol("where", f"{what}: ran in {where!r} instead of {w.d!r}")
    given = {os.fsencode(k): os.fsencode(v) for k, v in w.env.items()}
    env = dict(x.split(b"=", 1) for x in open(os.path.join(w.bin, "environ"), "rb").read().split(b"\0") if x)
    if env != given:
        odd = {k: (given.get(k), env.get(k)) for k in set(given) | set(env) if given.get(k) != env.get(k)}
        res.viol("environ", f"{what}: in an environment not that given: {odd}")
    if w.root is not None and os.path.isdir(os.path.join(w.d, w.root)):
        res.obs("root-there")
    code = {"TERM": -15, "INT": -2, "HUP": -1, "KILL": -9, "USR1": -10}[sig] if sig else rc
    if got != code:
        res.viol("exit", f"{what}: exit {got}, expected {code}")
    body = f"out {w.env['LB_MARK']}\n" + data.decode()
    head = f"limabean.rs  {ver}\n" if "--version" in args else ""
    if sig is None and out != head + body:
        res.viol("stdout", f"{what}: wrote {out[:300]!r}, expected {(head + body)[:300]!r}")
    lines = err.split("\n")
    warned = any("LIMABEAN_CLJ_DEPS" in l for l in lines if l.startswith("warning"))
    if warned != (w.program == "java" and w.deps is not None):
        res.viol("warning", f"{what}: stderr {err[:400]!r}")
    if warned:
        res.obs("deps-ignored")
    verbose = "-v" in args or "--verbose" in args
    rest = [l for l in lines if not l.startswith("warning")]
    if verbose:
        res.obs("verbose")
        if w.program not in rest[0]:
            res.viol("verbose", f"{what}: the command is not shown: {err[:300]!r}")
        rest = rest[1:]
    if sig is None and rest[:1] != ["err"]:
        res.viol("stderr", f"{what}: stderr {err[:400]!r}")


def kind_health(ctx, rng, res):
    """health tells whether what would be run is there, and runs nothing"""
    w = World(ctx, rng)
    bad = rng.random() < 0.2
    if bad:
        end = rng.choice(["exit 3", "exit 1", "exit 127", "exit 255", "exit 128", "kill -KILL $$", "kill -TERM $$", "kill -HUP $$", "printf 'fake 1.0\\n'; exit 2"])
        res.obs("health-killed" if "kill" in end else "health-failed")
        with open(os.path.join(w.bin, "bad-version"), "w") as f:
            f.write(end + "\n")
    elif w.have and rng.random() < 0.05:
        # there, but not to be run
        for t in w.have:
            os.chmod(os.path.join(w.bin, t), 0o644)
        w.have = set()
    if not bad and rng.random() < 0.15:
        res.obs("health-warned")
        open(os.path.join(w.bin, "warned"), "w").close()
    silent = not bad and rng.random() < 0.12
    if silent:
        res.obs("health-silent")
        open(os.path.join(w.bin, "silent"), "w").close()
    if not bad and rng.random() < 0.12:
        res.obs("health-odd")
        open(os.path.join(w.bin, "odd-version"), "w").close()
    if not bad and rng.random() < 0.15:
        res.obs("health-long")
        open(os.path.join(w.bin, "long-version"), "w").close()
    args = ["health"] + [rng.choice(["-v", "x"]) for _ in range(rng.choice([0, 0, 1]))]
    out, err, rc = w.run(ctx, args)
    what = f"{w.program}, there: {sorted(w.have)}, jar {w.jar}, bad {bad}"
    jar_ok = w.program == "clojure" or os.path.exists(os.path.join(w.d, w.jar))
    prog_ok = w.program in w.have and not bad
    if w.program == "java" and w.jar == core.BUILT_IN:
        res.obs("jar-built-in")
    res.case((w.program, w.program in w.have, jar_ok, bad, bool(w.deps), bool(w.root)))
    res.obs("health-" + ("good" if prog_ok and jar_ok else "bad-" + w.program if not prog_ok else "bad-jar"))
    cs = calls(w.bin)
    if any(c[1:] != ["--version"] or c[0] != w.program for c in cs):
        res.viol("ran", f"{what}: health ran {cs}")
    if (rc == 0) != (prog_ok and jar_ok) or rc not in (0, 1):
        res.viol("health", f"{what}: exit {rc}, {err[:300]!r}")
    if rc == 0 and prog_ok:
        if w.program not in err or not silent and ("fake 1.0" not in err or "release 2" not in err) or (w.program == "java" and not w.shows(err, w.jar)):
            res.viol("report", f"{what}: reported {err[:300]!r}")
    elif rc == 1:
        if not prog_ok and w.program not in err or w.program in w.have and bad and ("no such vm" not in err or "for want of memory" not in err) or prog_ok and not jar_ok and (not w.shows(err, w.jar) or "not found" not in err):
            res.viol("report", f"{what}: reported {err[:300]!r}")
