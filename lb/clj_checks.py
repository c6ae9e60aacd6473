"""Checks of the Clojure half: the real sources of /repo/clj run by the interpreter in /verif/ljc against the real limabean-pod.
What each query should give is computed here from what the pod says, independently of the Clojure code."""
import datetime
import decimal
import json
import os
import re
import subprocess
import tempfile
import time
from decimal import Decimal

from . import booking_checks as B
from . import cli_checks as T
from . import clj, compare, core, gen, model, wire_checks as W
from .clj import Date, Dec, Kw, Map, Other, edn
from .core import TIMEOUT, Num, dumps, req
from .dec import Overflow

CTX = decimal.Context(prec=2000, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN)
decimal.setcontext(CTX)


def K(s):
    return Kw(s)


def utf16(s):
    """strings in the order Java puts them in"""
    return s.encode("utf-16-be", "surrogatepass")


def isnum(x):
    return isinstance(x, (Decimal, int)) and not isinstance(x, bool)


def short(x, n=600):
    t = show(x)
    return t if len(t) <= n else t[:n] + " ..."


def show(x):
    if isinstance(x, Dec):
        return x.text + "M"
    if isinstance(x, Decimal):
        return format(x, "f")
    if isinstance(x, dict):
        return "{" + ", ".join(f"{show(k)} {show(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + " ".join(show(y) for y in x) + "]"
    if isinstance(x, frozenset):
        return "#{" + " ".join(sorted(show(y) for y in x)) + "}"
    return repr(x)


# ---------------------------------------------------------------- the same thing on the wire and in Clojure

SETS = ("currencies", "tags", "links")
WORDS = ("dct", "booking")


def as_clj(x, key=None, top=False):
    """what Clojure should make of a directive from the wire: a dict of keywords; numbers compare by value"""
    if isinstance(x, dict):
        dct = "dct" in x and isinstance(x["dct"], str)
        out = {}
        for k, v in x.items():
            if k in SETS and isinstance(v, list):
                v = frozenset(v)
            elif k == "dct" and isinstance(v, str) or k == "booking" and isinstance(v, str):
                v = Kw(v)
            elif k == "date" and isinstance(v, str):
                v = Date(v)
            else:
                v = as_clj(v, k)
            out[Kw(k)] = v
        return out
    if isinstance(x, list):
        return [as_clj(y) for y in x]
    return x


def same(a, b):
    """equal, numbers by value, kinds of thing by kind"""
    if isnum(a) or isnum(b):
        return isnum(a) and isnum(b) and a == b
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(type(k) is not str or True for k in a) and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, (Kw, Date, Other)) or isinstance(b, (Kw, Date, Other)):
        return type(a) is type(b) and str(a) == str(b)
    return type(a) is type(b) and a == b


def differ(a, b, path=""):
    """where two things first differ"""
    if same(a, b):
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                return f"{path}: unexpected {show(k)} {short(b[k], 200)}"
            if k not in b:
                return f"{path}: no {show(k)}, which should be {short(a[k], 200)}"
            d = differ(a[k], b[k], f"{path} {k}")
            if d:
                return d
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} expected, {len(b)} found"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{path}[{i}]")
            if d:
                return d
    return f"{path}: {short(b, 300)} instead of {short(a, 300)}"


# ---------------------------------------------------------------- a ledger loaded both ways

class Books:
    def __init__(self, L, path, opts, raw, booked):
        self.L, self.path, self.opts, self.raw, self.booked = L, path, opts, raw, booked
        self.directives = booked

    def postings(self):
        """every posting with what its transaction gives it, as Clojure has it"""
        if not hasattr(self, "_ps"):
            self._ps = []
            for d in self.directives:
                if d[K("dct")] == "txn":
                    base = {K(k): d[K(k)] for k in ("date", "payee", "narration") if K(k) in d}
                    for p in d.get(K("postings")) or ():
                        self._ps.append({**base, **p})
        return self._ps

    def default_booking(self):
        return str(self.opts.get("booking-method") or "strict")

    def booking(self, acc):
        m = None
        for d in self.directives:
            if d[K("dct")] == "open" and d[K("acc")] == acc and K("booking") in d:
                m = str(d[K("booking")])
        return m or self.default_booking()


KNOWN = [m for m in gen.METHODS if m != "average"]


def P(**kw):
    d = dict(err=0, junk=0.05, interp=0.5, lots=0.7, conv=0.5, balance=0.4, pad=0.3, passthrough=0.3, lifecycle=0.3, curs=0.1, meta=0.15, exprs=0.1, methods=KNOWN)
    d.update(kw)

    def f(rng):
        return {k: rng.choice(v) if isinstance(v, list) and k not in ("accounts", "methods") else v for k, v in d.items()}
    return f


ORDINARY = P(pool=[None, None, "random"], n=[4, 10, 16, 24], big=[0.0, 0.02, 0.3])
HOLDINGS = P(lots=3.0, simple=0.4, n=[10, 18, 30], pool=[None, "random"], preopen=0.9)
EVERYTHING = P(meta=0.7, passthrough=2.0, n=[6, 14, 24], pool=[None, "random"], pad=0.6, balance=0.8)


def ledger(rng, prof, booked=True, tries=12):
    """a ledger which books (or which does not)"""
    for _ in range(tries):
        try:
            L = B.make(rng, prof(rng))
        except (model.Uncertain, model.KnownDefect, Overflow):
            continue
        if bool(L.led.errors) == booked:
            continue
        # an account held at average cost has no inventory: a limit the code states
        if booked and (L.opts.get("booking-method") == "average" or any(d["dct"] == "open" and d.get("booking") == "average" for d in L.ds)):
            continue
        return L


def books(ctx, rng, res, prof=ORDINARY, tweak=None):
    """a ledger, and what the pod says of it"""
    L = ledger(rng, prof)
    if L is None:
        res.inconclusive += 1
        return
    text = L.text if tweak is None else tweak(L.text)
    path = ctx.write("l.beancount", text)
    return told(ctx, res, path, L, text)


def as_written(L, parsed, booked, res):
    """what the pod says is what was written and what the reference model of booking makes of it: whatever is asked in Clojure is
    about that, not merely about what the pod makes of it"""
    W.judge_raw(L.ds, parsed, L.where, res)
    for d in B.first(compare.outcome(L.led, booked, L.where)):
        res.viol(d.tag, repr(d))
    res.obs("as-written")
    return not res.viols


def told(ctx, res, path, L, text):
    run = ctx.serve(path, [req("parser.options", 1), req("parser.directives", 2), req("book", 3)])
    res.files["ledger"] = text
    if not res.served(run):
        return
    a = run.responses()
    if text == L.text and not as_written(L, a[1], a[2], res):
        return
    if "result" not in a[2] or "result" not in a[0] or "result" not in a[1]:
        res.inconclusive += 1
        res.obs("refused-by-pod")
        return
    b = Books(L, path, a[0]["result"], as_clj(a[1]["result"]["directives"]), as_clj(a[2]["result"]["directives"]))
    b.text = text
    return b


def ask(ctx, res, b, evals, loaded_ok=True, keep=False):
    a = clj.run(ctx, res, b.path, evals, keep)
    if a is None:
        return
    if loaded_ok and a.loaded.thrown:
        res.viol("load", f"the beanfile books, but loading it throws {short(a.loaded.thrown)}")
        return
    return a


# ---------------------------------------------------------------- filters

def regex(rng, texts):
    """(Java, Python) of a regular expression both read alike"""
    plain = [t for t in texts if t and all(c.isalnum() or c == " " for c in t)] or ["Groceries", "shop"]
    t = rng.choice(plain)
    i = rng.randrange(len(t))
    j = rng.randrange(i, len(t)) + 1
    s = t[i:j]
    k = rng.randrange(10)
    if k == 8:
        # what matches wherever there is the field at all, or an empty one
        return rng.choice(["", "z*", "q?", "^", "$", "(zz)?", "()"])
    if k == 9:
        return "(" + s + ")" + rng.choice(["", "?", "*", "(x)?"])
    if k == 0:
        return "^" + s
    if k == 1:
        return s + "|" + rng.choice(plain)
    if k == 2:
        return "[" + "".join(sorted(set(c for c in s if c != " "))) + "]" if s.strip() else s
    if k == 3:
        return "(?i)" + s.swapcase() if s.isascii() else s
    if k == 4:
        return s[:1] + "." + s[2:] if len(s) > 1 else s
    if k == 5:
        return "zzz" + s
    if k == 6:
        return "^" + s + "x*"
    return s


class Filters:
    """random filters with their meaning"""

    def __init__(self, rng, items):
        self.r = rng
        self.accs = sorted({x[K("acc")] for x in items if x.get(K("acc"))}) or ["Assets:A"]
        self.curs = sorted({x[K("cur")] for x in items if x.get(K("cur"))}) or ["NZD"]
        self.dates = sorted({str(x[K("date")]) for x in items}) or ["2020-01-01"]
        self.payees = [x[K("payee")] for x in items if x.get(K("payee"))]
        self.narrs = [x[K("narration")] for x in items if x.get(K("narration"))]
        self.used = set()

    def date(self):
        """(arguments, date)"""
        r = self.r
        d = datetime.date.fromisoformat(r.choice(self.dates))
        k = r.randrange(7)
        if k == 0:
            d = min(d, datetime.date.max - datetime.timedelta(1)) + datetime.timedelta(1)
        if k == 1:
            d = max(d, datetime.date.min + datetime.timedelta(1)) - datetime.timedelta(1)
        k = r.randrange(6)
        if k == 0:
            return [str(d.year)], datetime.date(d.year, 1, 1).isoformat()
        if k == 1:
            return [str(d.year), str(d.month)], datetime.date(d.year, d.month, 1).isoformat()
        if k == 2:
            return [str(d.year), str(d.month), str(d.day)], d.isoformat()
        if k == 3:
            return [f'(java.time.LocalDate/of {d.year} {d.month} {d.day})'], d.isoformat()
        return [f'"{d.isoformat()}"'], d.isoformat()

    def account(self):
        a = self.r.choice(self.accs)
        k = self.r.randrange(6)
        if k < 2:
            return a
        if k < 4:
            ps = a.split(":")
            return ":".join(ps[:self.r.randrange(1, len(ps) + 1)])
        if k == 4:
            return a[:self.r.randrange(1, len(a) + 1)]        # an account whose name this begins with
        return a + self.r.choice([":X", "x"])

    def one(self, depth=0):
        """(text, predicate)"""
        r = self.r
        k = r.randrange(11 if depth < 3 else 7)
        if k < 2:
            op = r.choice(["date<", "date<=", "date>", "date>=", "date>=<"])
            self.used.add(op)
            a, d = self.date()
            if op == "date>=<":
                while True:
                    a2, d2 = self.date()
                    if len(a2) == len(a):
                        break
                return f"(f/date>=< {' '.join(a)} {' '.join(a2)})", lambda x: d <= str(x[K("date")]) < d2
            f = {"date<": lambda x: str(x[K("date")]) < d, "date<=": lambda x: str(x[K("date")]) <= d,
                 "date>": lambda x: str(x[K("date")]) > d, "date>=": lambda x: str(x[K("date")]) >= d}[op]
            return f"(f/{op} {' '.join(a)})", f
        if k == 2:
            xs = [self.account() for _ in range(r.choice([0, 1, 1, 2, 3]))]
            self.used.add("acc")
            return f"(f/acc {' '.join(map(edn, xs))})", lambda x: x.get(K("acc")) in xs
        if k in (3, 4):
            xs = [self.account() for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
            self.used.add("sub-acc")
            return f"(f/sub-acc {' '.join(map(edn, xs))})", lambda x: bool(x.get(K("acc"))) and any(x[K("acc")] == t or x[K("acc")].startswith(t + ":") for t in xs)
        if k == 5:
            c = r.choice(self.curs + ["ZZZ"])
            self.used.add("cur")
            return f"(f/cur {edn(c)})", lambda x: x.get(K("cur")) == c
        if k == 6:
            key, texts = r.choice([("payee", self.payees), ("narration", self.narrs)])
            rx = regex(r, texts)
            self.used.add(key + "-match")
            return f"(f/{key}-match #{edn(rx)})", lambda x: x.get(K(key)) is not None and re.search(rx, x[K(key)]) is not None
        op = r.choice(["every-f", "some-f", "none-f"])
        self.used.add(op)
        fs = [self.one(depth + 1) for _ in range(r.choice([0, 1, 2, 2, 3]))]
        ps = [p for _, p in fs]
        f = {"every-f": lambda x: all(p(x) for p in ps), "some-f": lambda x: any(p(x) for p in ps), "none-f": lambda x: not any(p(x) for p in ps)}[op]
        return f"(f/{op} {' '.join(t for t, _ in fs)})", f

    def some(self, n=None):
        """(texts joined, conjunction)"""
        fs = [self.one() for _ in range(self.r.choice([0, 1, 1, 2, 3]) if n is None else n)]
        if n is None and self.r.random() < 0.25:
            # many at once, all but a few of them of little effect, in any order
            broad = [("(f/date< 9998)", lambda x: str(x[K("date")]) < "9998-01-01"), ("(f/none-f)", lambda x: True), ("(f/every-f)", lambda x: True),
                     ('(f/none-f (f/cur "ZZZ"))', lambda x: x.get(K("cur")) != "ZZZ")]
            fs += [self.r.choice(broad) for _ in range(self.r.choice([2, 3, 4, 6, 20]))]
            self.r.shuffle(fs)
            self.used.add("many")
        return " ".join(t for t, _ in fs), lambda x: all(p(x) for _, p in fs)


# ---------------------------------------------------------------- inventories

def lot_key(p):
    c = p.get(K("cost"))
    if not c:
        return ()
    g = lambda k: c.get(K(k))
    return (str(g("date")), g("cur"), Decimal(g("per-unit")), g("label"), g("merge"))


def lot_order(k):
    return (0,) if not k else (1, k[0], utf16(k[1]), k[2], k[3] is not None, utf16(k[3] or ""), k[4] is not None, k[4] or False)


def positions(ps, booking):
    """[(cur, lot key, units)] in order, nothing at zero"""
    out = []
    for cur in sorted({p[K("cur")] for p in ps}, key=utf16):
        mine = [p for p in ps if p[K("cur")] == cur]
        if booking == "none":
            simple = [p for p in mine if not p.get(K("cost"))]
            if simple:
                out.append((cur, (), sum(Decimal(p[K("units")]) for p in simple)))
            out += [(cur, lot_key(p), Decimal(p[K("units")])) for p in mine if p.get(K("cost"))]
        else:
            by = {}
            for p in mine:
                k = lot_key(p)
                by[k] = by.get(k, Decimal(0)) + Decimal(p[K("units")])
            out += [(cur, k, by[k]) for k in sorted(by, key=lot_order)]
    return [x for x in out if x[2] != 0]


def inventory(b, ps):
    by = {}
    for p in ps:
        by.setdefault(p[K("acc")], []).append(p)
    inv = {a: positions(xs, b.booking(a)) for a, xs in by.items()}
    return {a: x for a, x in inv.items() if x}


POSITION = {K("units"), K("cur"), K("cost"), K("cell/type")}


def read_positions(v):
    out = []
    for p in v:
        assert set(p) <= POSITION and p[K("cell/type")] == "position", f"not a position: {short(p)}"
        c = p.get(K("cost"))
        assert c is None or set(c) <= {K(k) for k in ("date", "cur", "per-unit", "total", "label", "merge")}, f"not a cost: {short(c)}"
        assert isnum(p[K("units")])
        out.append((p[K("cur")], lot_key(p), Decimal(p[K("units")])))
    return out


def judge_inventory(exp, r, what, res, tag="inventory"):
    if r.thrown:
        res.viol(tag, f"{what} throws {short(r.thrown)}")
        return False
    v = r.value
    if not isinstance(v, dict):
        res.viol(tag, f"{what} is no map: {short(v)}")
        return False
    if set(v) != set(exp):
        res.viol(tag, f"{what}: accounts {sorted(set(v) - set(exp))} should not be there, {sorted(set(exp) - set(v))} should")
        return False
    for a in exp:
        try:
            got = read_positions(v[a])
        except (AssertionError, KeyError) as e:
            res.viol(tag, f"{what}: {a} holds {e}")
            return False
        if got != exp[a]:
            res.viol(tag, f"{what}: {a} holds {short(got)} instead of {short(exp[a])}")
            return False
    return True


def sig_inventory(b, inv):
    n = lambda x: min(x, 4)
    return (n(len(inv)), tuple(sorted({(n(len(ps)), n(len({c for c, _, _ in ps})), any(k for _, k, _ in ps), any(k and k[3] is not None for _, k, _ in ps), any(u < 0 for _, _, u in ps), b.booking(a)) for a, ps in inv.items()})))


def longer(rng):
    """costs of the same value written with more or fewer decimal places"""
    def tweak(text):
        more = lambda m: m.group(1) + ("" if "." in m.group(1) else ".") + "0" * rng.choice([1, 1, 3, 4, 5, 7]) if rng.random() < 0.6 else m.group(1)
        if rng.random() < 0.4:
            # of nothing, at a cost
            none = [m for m in re.finditer(r'^(\d\S+) open (\S+:\S+) "NONE"[^\n]*\n(?=\d|$)', text, re.M)]
            for m in reversed(none):
                text = text[:m.end()] + f'{m.group(1)} * "of nothing"\n  {m.group(2)} 0 {rng.choice(["USD", "GBP", "AAPL"])} {{2.50 NZD, {m.group(1)}}}\n\n' + text[m.end():]
        return re.sub(r"(?<=\{)(\d[\d,]*(?:\.\d+)?)(?= [A-Z])", more, text)
    return tweak


def kind_inventory(ctx, rng, res):
    b = books(ctx, rng, res, rng.choice([HOLDINGS, HOLDINGS, ORDINARY]), longer(rng) if rng.random() < 0.3 else None)
    if b is None:
        return
    ps = b.postings()
    F = Filters(rng, ps)
    cases = [("", lambda x: True)] + [F.some() for _ in range(5)] + [(f"(f/acc {edn(a)})", lambda x, a=a: x[K("acc")] == a) for a in rng.sample(F.accs, min(3, len(F.accs)))]
    a = ask(ctx, res, b, [f"(inventory {t})" for t, _ in cases])
    if a is None:
        return
    for (t, f), r in zip(cases, a.results):
        mine = [p for p in ps if f(p)]
        exp = inventory(b, mine)
        res.case(sig_inventory(b, exp), bool(exp))
        res.obs("inventories")
        res.obs("positions", sum(map(len, exp.values())))
        res.obs("lots", sum(1 for x in exp.values() for _, k, _ in x if k))
        if any(K("cost") in p for p in mine) and sum(1 for p in mine if K("cost") in p) > sum(1 for x in exp.values() for _, k, _ in x if k):
            res.obs("lots-merged-or-gone")
        if any(b.booking(x) == "none" for x in exp):
            res.obs("booking-none")
        if not judge_inventory(exp, r, f"(inventory {t})", res):
            return
    if res.sample is None:
        res.sample = {"ledger": b.text[:800], "query": cases[1][0], "answer": short(a.results[1].value, 400)}


def kind_balances(ctx, rng, res):
    """balances and the income statement: by whatever names the roots have"""
    names = {"assets": "Assets", "liabilities": "Liabilities", "equity": "Equity", "income": "Income", "expenses": "Expenses"}
    # rename some of the roots, throughout
    changed = {k: rng.choice(NEW) + str(i) for i, k in enumerate(names) if rng.random() < 0.5} if rng.random() < 0.6 else {}

    def tweak(text):
        for k, n in changed.items():
            text = re.sub(r"\b%s(?=:[A-Z0-9])" % names[k], n, text)
        return "".join('option "name_%s" "%s"\n' % kv for kv in changed.items()) + text
    b = books(ctx, rng, res, P(pool=[None, "random"], n=[10, 16, 24], meta=0, passthrough=0), tweak)
    if b is None:
        return
    now = {**names, **changed}
    ps = b.postings()
    F = Filters(rng, ps)
    evals, exps = [], []
    for q, roots in (("balances", ("assets", "liabilities")), ("income-statement", ("income", "expenses"))):
        for n in (0, 1, None):
            t, f = F.some(n)
            evals.append(f"({q} {t})")
            exps.append((lambda x, f=f, roots=roots: f(x) and any(x[K("acc")].split(":")[0] == now[r] for r in roots)))
    a = ask(ctx, res, b, evals)
    if a is None:
        return
    for t, f, r in zip(evals, exps, a.results):
        exp = inventory(b, [p for p in ps if f(p)])
        res.case((sig_inventory(b, exp), t.split()[0], tuple(sorted(changed))), bool(exp))
        res.obs(t[1:].split()[0].rstrip(")"))
        res.obs("accounts", len(exp))
        if changed:
            res.obs("renamed-roots")
        if exp and len(exp) < len(inventory(b, ps)):
            res.obs("some-left-out")
        if not judge_inventory(exp, r, t, res, "statement"):
            return


NEW = ["Activos", "Vermögen", "X", "Assets-2", "Expense", "Incomes", "Liability"]


# ---------------------------------------------------------------- journals

def journal(ps):
    bal, out = {}, []
    for p in ps:
        bal[p[K("cur")]] = bal.get(p[K("cur")], Decimal(0)) + Decimal(p[K("units")])
        out.append([(c, bal[c]) for c in sorted(bal, key=utf16) if bal[c] != 0])
    return out


def judge_journal(ps, r, what, res):
    if r.thrown:
        res.viol("journal", f"{what} throws {short(r.thrown)}")
        return False
    v = r.value
    if not isinstance(v, list) or len(v) != len(ps):
        res.viol("journal", f"{what}: {len(v) if isinstance(v, list) else short(v)} entries for {len(ps)} postings")
        return False
    for i, (p, bal, e) in enumerate(zip(ps, journal(ps), v)):
        want = {k: x for k, x in p.items() if k not in (K("cost"), K("idx"))}
        have = {k: x for k, x in e.items() if k not in (K("bal"), K("cell/type"), K("cost"), K("idx"), K("span"), K("span-p"), K("provenance"))}
        d = differ(want, have)
        if d:
            res.viol("journal", f"{what}: entry {i}{d}; {short(e)}")
            return False
        got = []
        for x in e.get(K("bal")) or ():
            if set(x) != {K("units"), K("cur"), K("cell/type")}:
                res.viol("journal", f"{what}: balance of entry {i}: {short(x)}")
                return False
            got.append((x[K("cur")], Decimal(x[K("units")])))
        if got != bal or K("bal") not in e:
            res.viol("journal", f"{what}: balance after entry {i} is {short(got)} instead of {short(bal)}")
            return False
        if e.get(K("cell/type")) != "journal/entry":
            res.viol("journal", f"{what}: entry {i} is not marked as one")
            return False
    return True


def kind_journal(ctx, rng, res):
    b = books(ctx, rng, res, rng.choice([ORDINARY, EVERYTHING, HOLDINGS]))
    if b is None:
        return
    ps = b.postings()
    F = Filters(rng, ps)
    cases = [("", lambda x: True)] + [F.some() for _ in range(5)]
    a = ask(ctx, res, b, [f"(journal {t})" for t, _ in cases])
    if a is None:
        return
    for (t, f), r in zip(cases, a.results):
        mine = [p for p in ps if f(p)]
        bals = journal(mine)
        res.case((min(len(mine), 6), tuple(sorted({(tuple(sorted(p)), min(len(x), 4)) for p, x in zip(mine, bals)}))), bool(mine))
        res.obs("journals")
        res.obs("entries", len(mine))
        res.obs("balance-back-to-zero", sum(1 for x, y in zip(bals, bals[1:]) if len(y) < len(x)))
        res.obs("costs-left-out", sum(1 for p in mine if K("cost") in p))
        if not judge_journal(mine, r, f"(journal {t})", res):
            return
    if res.sample is None:
        res.sample = {"ledger": b.text[:800], "query": cases[1][0], "answer": short(a.results[1].value, 400)}


# ---------------------------------------------------------------- rollups

def rollup(inv, cur):
    """{account: (item or None, total or None, whether the total may be left out)}"""
    items = {}
    for a, ps in inv.items():
        u = sum((u for c, _, u in ps if c == cur), Decimal(0))
        if u != 0:
            items[a] = u
    totals, below = {}, {}
    for a, u in items.items():
        parts = a.split(":")
        for i in range(1, len(parts) + 1):
            x = ":".join(parts[:i])
            totals[x] = totals.get(x, Decimal(0)) + u
            below[x] = below.get(x, 0) + (x != a)
    return items, totals, below


def judge_rollup(inv, cur, v):
    items, totals, below = rollup(inv, cur)
    deep = max((a.count(":") for a in items), default=0)
    if not isinstance(v, dict) or set(v) != set(totals):
        return f"accounts {sorted(v) if isinstance(v, dict) else short(v)} instead of {sorted(totals)}"
    for a, e in v.items():
        if e.get(K("cell/type")) != "rollup/entry" or set(e) - {K("item"), K("total"), K("cell/type")}:
            return f"{a}: {short(e)}"
        it, tot = e.get(K("item")), e.get(K("total"))
        if (it is None) != (a not in items) or it is not None and not same([items[a], deep], it):
            return f"{a}: item {short(it)} instead of {items.get(a)} at depth {deep}"
        due = items.get(a) != totals[a]
        # a total equal to the account's own amount need not be shown, and may not where there is nothing below it
        if tot is None:
            if due:
                return f"{a}: no total, which should be {totals[a]}"
        elif not same([totals[a], a.count(":")], tot):
            return f"{a}: total {short(tot)} instead of {totals[a]} at depth {a.count(':')}"
        elif not due and not below[a]:
            return f"{a}: total {short(tot)} though there is nothing below the account"


def kind_rollup(ctx, rng, res):
    b = books(ctx, rng, res, P(pool=["random", "random", None], n=[10, 20, 30], lots=[0.2, 1.5], meta=0, passthrough=0))
    if b is None:
        return
    ps = b.postings()
    F = Filters(rng, ps)
    cases = [("", lambda x: True)] + [F.some() for _ in range(3)]
    cases += [(f"(f/cur {edn(c)})", lambda x, c=c: x[K("cur")] == c) for c in rng.sample(F.curs, min(3, len(F.curs)))]
    # what nothing matches
    cases.append(('(f/cur "NONE-SUCH")', lambda x: False))
    a = ask(ctx, res, b, [f"(rollup (inventory {t}))" for t, _ in cases])
    if a is None:
        return
    for (t, f), r in zip(cases, a.results):
        inv = inventory(b, [p for p in ps if f(p)])
        freq = {}
        for x in inv.values():
            for c in {c for c, _, _ in x}:
                freq[c] = freq.get(c, 0) + 1
        prim = [c for c in freq if freq[c] == max(freq.values())] or [None]
        if r.thrown:
            res.viol("rollup", f"(rollup (inventory {t})) throws {short(r.thrown)}")
            return
        bad = [judge_rollup(inv, c, r.value) for c in prim]
        items, totals, below = rollup(inv, prim[0])
        res.case((min(len(items), 5), min(len(totals), 9), len(prim) > 1, sum(1 for x in totals if x in items and totals[x] != items[x]) > 0,
                  any(v == 0 for v in totals.values())), bool(items))
        res.obs("rollups")
        res.obs("totals", len(totals))
        res.obs("accounts-with-own-and-below", sum(1 for x in items if below[x]))
        res.obs("zero-totals", sum(1 for x in totals.values() if x == 0))
        if not inv:
            res.obs("empty")
        if len(prim) == 1 and len(freq) > 1:
            res.obs("primary-chosen")
        if all(bad):
            res.viol("rollup", f"(rollup (inventory {t})) in {'/'.join(map(str, prim))}: {bad[0]}")
            return
    if res.sample is None:
        res.sample = {"ledger": b.text[:800], "query": cases[1][0], "answer": short(a.results[1].value, 400)}


# ---------------------------------------------------------------- filters alone, over postings, directives and made things

def item_edn(x):
    if isinstance(x, Date):
        return f'#time/date "{x}"'
    if isinstance(x, dict):
        return "{" + " ".join(edn(k) + " " + item_edn(v) for k, v in x.items()) + "}"
    if isinstance(x, Decimal):
        return format(x, "f") + "M"
    return edn(x)


def kind_filters(ctx, rng, res):
    """filters applied to whatever there is: in particular they reject what lacks their field"""
    b = books(ctx, rng, res, rng.choice([ORDINARY, EVERYTHING]))
    if b is None:
        return
    ds = b.booked
    F = Filters(rng, b.postings() + [d for d in ds if K("acc") in d])
    opens = [d for d in ds if d[K("dct")] == "txn"]
    F.payees += [d[K("payee")] for d in opens if K("payee") in d]
    F.narrs += [d[K("narration")] for d in opens if K("narration") in d]
    # made ones: each field there, nil, or missing
    made = []
    for _ in range(12):
        x = {}
        for k, vs in (("date", [Date(d) for d in F.dates]), ("acc", F.accs + ["Assets"]), ("cur", F.curs), ("payee", F.payees + ["x"]), ("narration", F.narrs + [""])):
            q = rng.random()
            if q < 0.6:
                x[K(k)] = rng.choice(vs)
            elif q < 0.75:
                x[K(k)] = None
        made.append(x)

    def total(f):
        """the meaning of a filter on what may lack its field"""
        return f

    class Loose(Filters):
        def one(self, depth=0):
            t, f = super().one(depth)
            if t.startswith("(f/date"):
                g = f
                f = lambda x: x.get(K("date")) is not None and g(x)
            return t, f
    F.__class__ = Loose
    fs = [F.one() for _ in range(8)]
    text = "[" + " ".join(item_edn(x) for x in made) + "]"
    evals = []
    for t, _ in fs:
        evals.append(f"(mapv (comp boolean {t}) *directives*)")
        evals.append(f"(let [flt {t}] (mapv (comp boolean flt) (limabean.adapter.edn/read-string {edn(text)})))")
    # several at once, as a query takes them
    many = [F.some() for _ in range(4)]
    a = ask(ctx, res, b, evals + [f"(mapv :date (journal {t}))" for t, _ in many])
    if a is None:
        return
    for (t, f), r in zip(many, a.results[len(evals):]):
        want = [str(p[K("date")]) for p in b.postings() if f(p)]
        res.obs("several")
        if r.thrown or not isinstance(r.value, list) or list(map(str, r.value)) != want:
            res.viol("filter", f"(journal {t}) has {short(r.thrown or r.value)} instead of postings of {short(want)}")
            return
    for (t, f), r1, r2 in zip(fs, a.results[::2], a.results[1:len(evals):2]):
        for xs, r in ((ds, r1), (made, r2)):
            want = [bool(f(x)) for x in xs]
            res.case((re.sub(r'"[^"]*"|\d+', "_", t)[:60], min(sum(want), 3), all(want)), any(want) and not all(want))
            res.obs("filtered", len(want))
            res.obs("selected", sum(want))
            if r.thrown:
                res.viol("filter", f"{t} throws {short(r.thrown)}")
                return
            if r.value != want:
                i = next((i for i, (x, y) in enumerate(zip(r.value, want)) if x != y), None)
                res.viol("filter", f"{t} {'selects' if not want[i] else 'rejects'} {short(xs[i])}" if i is not None else f"{t}: {short(r.value)}")
                return
    for u in F.used:
        res.obs("filter-" + u)
    if res.sample is None:
        res.sample = {"filters": [t for t, _ in fs[:3]], "items": text[:300]}


BAD_DATES = ['"2020-02-30"', '"2021-02-29"', '"2020-13-01"', '"20200101"', '"2020-1-1"', '"yesterday"', '""', "2020 13", "2020 0", "2020 2 30", "2021 2 29", "2020 4 31", '"2020-01-01x"', '"2020-01-01 "', '" 2020-01-01"', "2020 1 0",
             '"2020-00-10"', "2020 12 32", '"2020"', '"2020-06"', "1900 2 29", '"1900-02-29"']


def kind_bad_dates(ctx, rng, res):
    """a date which is none is the user's error, and is said to be so"""
    b = books(ctx, rng, res, P(n=3, meta=0))
    if b is None:
        return
    cases = []
    for _ in range(8):
        op = rng.choice(["date<", "date<=", "date>", "date>=", "date>=<", "date>=<"])
        t = rng.choice(BAD_DATES)
        if op == "date>=<":
            n = len(t.split()) if not t.startswith('"') else 1
            good = {1: '"2020-01-01"', 2: "2020 1", 3: "2020 1 1"}[n]
            t = f"{t} {good}" if rng.random() < 0.5 else f"{good} {t}"
        cases.append(f"(f/{op} {t})")
    a = ask(ctx, res, b, [f"(inventory {t})" for t in cases])
    if a is None:
        return
    for t, r in zip(cases, a.results):
        res.case(t)
        res.obs("bad-dates")
        u = r.user_error()
        if not r.thrown:
            res.viol("bad-date", f"{t} is accepted")
        elif not isinstance(u, str) or not u.startswith("Bad date: ") or not u[10:].strip() or u[10:].strip() == "null":
            res.viol("bad-date", f"{t}: {short(r.thrown)}")


# ---------------------------------------------------------------- loading

LOADED = re.compile(r"\[limabean\] (\d+) directives loaded from (.*)\n\[limabean\] (\d+) directives resulting from booking and running plugins\n", re.S)


def spanned(b):
    """the booked directives with the spans of what was parsed, by index"""
    out = []
    for d in b.booked:
        d = dict(d)
        raw = b.raw[int(d[K("idx")])] if K("idx") in d else {}
        if K("span") in raw:
            d[K("span")] = raw[K("span")]
        if K("postings") in d:
            ps = []
            for p in d[K("postings")]:
                p = dict(p)
                rp = raw.get(K("postings"), [])[int(p[K("idx")])] if K("idx") in p and K("postings") in raw else {}
                if K("span") in rp:
                    p[K("span")] = rp[K("span")]
                ps.append(p)
            d[K("postings")] = ps
        out.append(d)
    return out


def judge_registry(b, v, res, what="*registry*"):
    """what the registry says of every account and currency"""
    if not isinstance(v, dict):
        res.viol("registry", f"{what} is {short(v)}")
        return
    accs = {d[K("acc")]: d[K("booking")] for d in b.directives if d[K("dct")] == "open" and K("booking") in d}
    want = {a: {K("booking"): m} for a, m in accs.items()}
    d = differ(want, v.get(K("accs")) or {})
    if d:
        res.viol("registry", f"{what} accounts{d}")
    if v.get(K("default-booking")) != b.default_booking() or not isinstance(v.get(K("default-booking")), Kw):
        res.viol("registry", f"{what}: default booking {short(v.get(K('default-booking')))} instead of :{b.default_booking()}")
    freq = {}
    for p in b.postings():
        freq[p[K("cur")]] = freq.get(p[K("cur")], 0) + 1
    curs = v.get(K("curs"))
    if not isinstance(curs, list) or sorted(curs) != sorted(freq) or any(freq[x] < freq[y] for x, y in zip(curs, curs[1:])):
        res.viol("registry", f"{what}: currencies {short(curs)}, used {freq}")


def kind_load(ctx, rng, res):
    b = books(ctx, rng, res, P(n=[250], balance=0.1, pad=0.1) if rng.random() < 0.015 else rng.choice([EVERYTHING, ORDINARY, HOLDINGS, P(big=0.9, n=[6, 12], meta=0.3, passthrough=1.0)]))
    if b is None:
        return
    a = ask(ctx, res, b, ["(:raw-directives *beans*)", "*options*", "*directives*", "*registry*", "(:plugins *beans*)", "(:error *beans*)",
                          "(= [*directives* *options* *registry*] ((juxt :directives :options :registry) *beans*))", "(:path *beans*)",
                          "[(:raw-xf-directives *beans*) (:booked-xf-directives *beans*)]"])
    if a is None:
        return
    raw, opts, ds, reg, plugs, err, glob_, path, xf = a.results
    res.case(W.sig_raw([{str(k): (dict((str(j), w) for j, w in v.items()) if isinstance(v, dict) else v) for k, v in d.items() if k != "postings"} for d in b.raw]))
    res.obs("loaded")
    res.obs("directives", len(b.raw))
    res.obs("booked", len(b.booked))
    for t, r, want in (("(:raw-directives *beans*)", raw, b.raw), ("*directives*", ds, spanned(b)), ("*options*", opts, as_clj(b.opts))):
        if r.thrown:
            res.viol("load", f"{t} throws {short(r.thrown)}")
            return
        d = differ(want, r.value, t)
        if d:
            res.viol("load", d)
            return
    judge_registry(b, reg.value, res)
    if plugs.value or err.value is not None or xf.value != [None, None]:
        res.viol("load", f"without plugins: plugins {short(plugs.value)}, error {short(err.value)}, {short(xf.value)}")
    if glob_.value is not True or path.value != b.path:
        res.viol("load", "the variables are not those of *beans*")
    m = LOADED.fullmatch(a.loaded.err)
    if not m or int(m.group(1)) != len(b.raw) or int(m.group(3)) != len(b.booked) or m.group(2) != b.path or a.loaded.out:
        res.viol("load", f"loading {len(b.raw)} directives, {len(b.booked)} booked, says {a.loaded.err!r} and {a.loaded.out!r}")
    if res.sample is None:
        res.sample = {"ledger": b.text[:800], "said": a.loaded.err}


def kind_options(ctx, rng, res):
    """the options are those written"""
    from . import source_checks as S
    d = ctx.fresh()
    path = os.path.join(d, "o.beancount")
    lines, exp, roots = S.gen_options(rng, d)
    text = "\n".join(f'option "{k}" {gen.esc(v, rng)}' for k, v in lines) + "\n"
    text += f'2020-01-01 open {roots.get("Assets", "Assets")}:Cash\n2020-01-01 open {roots.get("Income", "Income")}:Cash\n'
    text += f'2020-01-09 * "x"\n  {roots.get("Assets", "Assets")}:Cash  1 USD\n  {roots.get("Income", "Income")}:Cash  -1 USD\n'
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    res.files["ledger"] = text
    a = clj.run(ctx, res, path, ["*options*", "(:options *beans*)", "[(set (keys (balances))) (set (keys (income-statement)))]" if exp.get("booking-method") != "average" else "nil"])
    if a is None:
        return
    if a.loaded.thrown or any(r.thrown for r in a.results):
        res.viol("load", f"loading throws {short(a.loaded.thrown or [r.thrown for r in a.results])}")
        return
    res.case((tuple(sorted(exp)), tuple(v for k, v in lines if len(v) < 8)), bool(lines))
    res.obs("options", len(lines))
    want = {k: sorted(v) if k in ("documents", "operating-currency") else v for k, v in exp.items()}
    want = {Kw(k): {Kw(c): x for c, x in v.items()} if isinstance(v, dict) else v for k, v in want.items()}
    for r in a.results[:2]:
        got = {k: sorted(v, key=str) if k in ("documents", "operating-currency") and isinstance(v, (list, frozenset)) else v for k, v in r.value.items()} if isinstance(r.value, dict) else r.value
        x = differ(want, got, "*options*")
        if x:
            res.viol("options", x)
            return
    if exp.get("booking-method") != "average" and a.results[2].value != [frozenset({roots.get("Assets", "Assets") + ":Cash"}), frozenset({roots.get("Income", "Income") + ":Cash"})]:
        res.viol("options", f"accounts of balances and income statement: {short(a.results[2].value)}")


# ---------------------------------------------------------------- plugins

class Thrown(Exception):
    pass


class Invalid(Exception):
    pass


class Plugged:
    """what a list of plugins makes of directives: the directives in order, each with its provenance"""

    def __init__(self):
        self.known = {}

    def know(self, d):
        self.known[id(d)] = d

    def run(self, ds, plugins, kind):
        for d in ds:
            if K("err") not in d:
                self.know(d)
        for name, ops in plugins:
            out = []
            for n, d in enumerate(ds):
                for op in ops.get(n, ops.get("else", [["keep"]])):
                    self.op(op, d, out, name)
            for op in ops.get("end", ()):
                self.op(op, None, out, name)
            ds = [self.tag(d, name, kind) for d in out]
        return ds

    def op(self, op, d, out, name):
        k = op[0]
        err = lambda d, *ms: {**d, K("err"): list(d.get(K("err"), [])) + [{K("message"): m, K("plugin"): "lb.ops"} for m in ms]}
        if k == "keep":
            out.append(d)
        elif k == "give":
            out.append(dict(op[1]))
        elif k == "set":
            out.append({**d, **op[1]})
        elif k == "without":
            # to be without what is not there is to be left alone
            out.append({x: v for x, v in d.items() if x != op[1]} if op[1] in d else d)
        elif k == "err":
            out.append(err(d, op[1]))
        elif k == "errs":
            out.append(err(d, op[1], op[2]))
        elif k == "set-err":
            out.append(err({**d, **op[1]}, op[2]))
        elif k == "give-err":
            out.append(err(op[1], op[2]))
        else:
            raise Thrown("\n".join(op[1:]))

    def tag(self, d, name, kind):
        # what has an error is left as it is, unless there would be no telling where it came from
        if K("err") in d and (K("span") in d or K("provenance") in d) or id(d) in self.known:
            return d
        p = list(d.get(K("provenance"), []))
        if kind == "booked" and Kw("booked") not in p:
            p.append(Kw("booked"))
        d = {**d, K("provenance"): p + [name]}
        if K("err") not in d and (not isinstance(d.get(K("date")), Date) or not isinstance(d.get(K("tags"), frozenset()), frozenset) or not isinstance(d.get(K("metadata"), {}), dict)):
            raise Invalid
        self.know(d)
        return d


def op_edn(op):
    return "[:" + op[0] + "".join(" " + (":" + x if isinstance(x, Kw) else item_edn(x)) for x in op[1:]) + "]"


def ops_edn(ops):
    return "{" + " ".join((":" + k if isinstance(k, str) else str(k)) + " [" + " ".join(op_edn(o) for o in v) + "]" for k, v in ops.items()) + "}"


def made(rng, ds, accs):
    """a directive a plugin might add"""
    date = Date(rng.choice([str(d[K("date")]) for d in ds] or ["2020-01-01"]))
    acc = rng.choice(accs)
    k = rng.randrange(7)
    base = {K("date"): date}
    if k == 0:
        base.update({K("dct"): Kw("note"), K("acc"): acc, K("comment"): "made " + str(rng.randrange(100))})
    elif k == 1:
        base.update({K("dct"): Kw("event"), K("type"): "made", K("description"): "up"})
    elif k == 2:
        base.update({K("dct"): Kw("price"), K("cur"): "MADE", K("price"): {K("per-unit"): Decimal("1.50"), K("cur"): "NZD"}})
    elif k == 3:
        base.update({K("dct"): Kw("commodity"), K("cur"): "MADE"})
    elif k == 4:
        base.update({K("dct"): Kw("open"), K("acc"): "Assets:Made%d" % rng.randrange(1000)})
    elif k == 5:
        base.update({K("dct"): Kw("custom"), K("type"): "made", K("values"): [{K("string"): "v"}, {K("number"): Decimal("2.50")}]})
    else:
        n = Decimal(rng.randrange(1, 999)).scaleb(-2)
        ps = [{K("acc"): acc, K("units"): n, K("cur"): "NZD"}, {K("acc"): rng.choice(accs), K("units"): -n, K("cur"): "NZD"}]
        # postings may be the same to the last
        ps = [dict(p) for p in rng.choice([ps, ps, ps * 2, [ps[0], ps[1], ps[0], ps[1]], [ps[0]] * 3 + [ps[1]] * 3])]
        base.update({K("dct"): Kw("txn"), K("flag"): "*", K("narration"): "made", K("postings"): ps})
    if rng.random() < 0.3:
        base[K("metadata")] = {K("made"): {K("bool"): True}}
    return base


def booked_form(d):
    """a made transaction needs nothing more to be booked"""
    return d


def gen_ops(rng, ds, accs, kind, fail):
    """operations on a list of directives of this many"""
    ops = {}
    n = len(ds)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        i = rng.randrange(n + 1) if n else 0
        d = ds[i] if i < n else None
        k = rng.randrange(9)
        if k == 0:
            ops[i] = []
        elif k == 1:
            ops[i] = [["keep"], ["keep"]]
        elif k == 2:
            ops[i] = [["give", made(rng, ds, accs)], ["keep"]]
        elif k == 3:
            ops[i] = [["keep"], ["give", made(rng, ds, accs)]]
        elif k == 4:
            ops["end"] = [["give", made(rng, ds, accs)]]
        elif k == 5:
            ops[i] = [["set", {K("tags"): frozenset({"tag%d" % rng.randrange(99)})}]]
        elif k == 6:
            ops[i] = [["set", {K("metadata"): {K("set"): {K("number"): Decimal("1E-8") if rng.random() < 0.3 else Decimal(rng.randrange(10 ** 6)).scaleb(-rng.randrange(0, 4))}}}]]
        elif k == 7 and d is not None and d[K("dct")] == "txn":
            ops[i] = [["set", {K("narration"): "set by a plugin %d" % rng.randrange(99)}]] if rng.random() < 0.7 or K("payee") not in d else [["without", Kw("payee")]]
        elif k == 8 and rng.random() < 0.3:
            ops["else"] = [["set", {K("links"): frozenset({"link%d" % rng.randrange(99)})}]]
    if fail == "err":
        for _ in range(rng.choice([1, 1, 2, 3])):
            i = rng.randrange(max(1, n))
            m = "bad thing %d" % rng.randrange(1000)
            ops[i] = [rng.choice([["err", m], ["errs", m, "and another %d" % rng.randrange(1000)], ["set-err", {K("tags"): frozenset({"tagged"})}, m]])]
            if rng.random() < 0.15:
                ops["end"] = [["give-err", made(rng, ds, accs), m]]
    elif fail == "throw":
        # the text is found again in what is printed
        m = "thrown %d" % rng.randrange(10 ** 6)
        # or for a reason, itself for a reason
        ops[rng.randrange(max(1, n))] = [rng.choice([["throw", m], ["throw-old", m], ["throw-caused", m, "because %d" % rng.randrange(10 ** 6), "since %d" % rng.randrange(10 ** 6)]])]
    elif fail == "invalid":
        bad = made(rng, ds, accs)
        bad[rng.choice([K("date"), K("tags"), K("metadata")])] = rng.choice(["x", 7])
        ops[rng.randrange(max(1, n))] = [["give", bad], ["keep"]]
    return ops


def wire(x):
    """what Clojure sends to the pod"""
    if isinstance(x, dict):
        return {str(k): wire(v) for k, v in x.items()}
    if isinstance(x, frozenset):
        return sorted(x)
    if isinstance(x, (list, tuple)):
        return [wire(y) for y in x]
    if isinstance(x, (Kw, Date)):
        return str(x)
    return x


def strip(d, keys):
    d = {k: v for k, v in d.items() if k not in keys}
    if isinstance(d.get(K("postings")), list):
        d[K("postings")] = [{k: v for k, v in p.items() if k not in keys} for p in d[K("postings")]]
    return d


SPANS = (K("span-p"),)


def directive_items(ds):
    """[(directive index, posting index or None, item)]"""
    out = []
    for i, d in enumerate(ds):
        out.append((i, None, d))
        for j, p in enumerate(d.get(K("postings")) or ()):
            out.append((i, j, p))
    return out


def judge_xf(exp, got, what, res):
    """directives out of plugins: as expected, and a synthetic span wherever there is provenance and nowhere else"""
    d = differ([strip(x, SPANS) for x in exp], [strip(x, SPANS) for x in got] if isinstance(got, list) else got, what)
    if d:
        res.viol("plugins", d)
        return False
    for i, (e, g) in enumerate(zip(exp, got)):
        have = K("span-p") in g
        if have != (K("provenance") in e):
            res.viol("span-p", f"{what}[{i}] with provenance {short(e.get(K('provenance')))} has {'a' if have else 'no'} synthetic span: {short(g)}")
            return False
        for j, p in enumerate(g.get(K("postings")) or ()):
            if (K("span-p") in p) != have:
                res.viol("span-p", f"{what}[{i}] posting {j} has {'a' if K('span-p') in p else 'no'} synthetic span")
                return False
    return True


def spans_of(ds):
    """[(span, provenance, directive, posting)] of what has synthetic spans"""
    out = []
    for d in ds:
        if K("span-p") in d:
            out.append((d[K("span-p")], d.get(K("provenance")), d, None))
            for p in d.get(K("postings")) or ():
                if K("span-p") in p:
                    out.append((p[K("span-p")], d.get(K("provenance")), d, p))
    return out


def kind_plugins(fail_p):
    def kind(ctx, rng, res):
        L = ledger(rng, rng.choice([P(n=[4, 8, 14], meta=0.3), EVERYTHING, HOLDINGS]))
        if L is None:
            res.inconclusive += 1
            return
        path = ctx.write("l.beancount", L.text)
        b0 = told(ctx, res, path, L, L.text)
        if b0 is None:
            return
        accs = sorted({d[K("acc")] for d in b0.raw if d[K("dct")] == "open"}) or ["Assets:A"]
        names = rng.choice([["lb.p1"], ["lb.p2", "lb.p1"], ["lb.p1", "lb.p_3", "lb.p2"], ["lb.raw_only", "lb.booked-only"], ["lb.p-3", "lb.raw-only", "lb.p1", "lb.booked_only"], ["lb.p1", "lb.p1"],
                            ["lb.p_4_x"], ["lb.p-4-x", "lb.p2"], ["lb.p1", "lb.p_4-x", "lb.p2", "lb.p-4_x"]])
        fail = rng.choice(["err", "err", "throw", "invalid"]) if rng.random() < fail_p else None
        where = rng.choice(["raw", "booked"])
        at = rng.randrange(len(names))
        # errors on what others have changed
        before = fail == "err" and at > 0 and rng.random() < 0.6
        plugs = []
        cur = {"raw": len(b0.raw), "booked": len(b0.booked)}
        for k, nm in enumerate(names):
            cfg = {}
            for kd, ds in (("raw", b0.raw), ("booked", b0.booked)):
                if "only" in nm and kd not in nm:
                    continue
                o = gen_ops(rng, ds, accs, kd, fail if fail and kd == where and k == at else None)
                if before and kd == where and k < at and "else" not in o:
                    o["else"] = [["set", {K("links"): frozenset({"link%d" % rng.randrange(99)})}]]
                if kd == "booked" and not before and rng.random() < 0.4 and not (fail and kd == where and k == at):
                    o = {}
                if o:
                    cfg[kd] = o
            plugs.append((nm, cfg))
        text = "".join("plugin %s %s\n" % (gen.esc(n), gen.esc("{" + " ".join(f":{k} {ops_edn(o)}" for k, o in c.items()) + "}")) for n, c in plugs) + L.text
        path = ctx.write("l.beancount", text)
        b = told(ctx, res, path, L, text)
        if b is None:
            return
        a = ask(ctx, res, b, ["(:raw-xf-directives *beans*)", "(:booked-directives *beans*)", "(:booked-xf-directives *beans*)", "*directives*", "(:error *beans*)",
                              "(mapv #(select-keys % [:name :config]) (:plugins *beans*))", "(:raw-directives *beans*)",
                              "(let [ss (into [] (comp (mapcat #(cons % (:postings %))) (keep :span-p)) (or (:booked-xf-directives *beans*) (:raw-xf-directives *beans*)))]"
                              " (when (seq ss) (limabean.adapter.pod/resolve-spans (:pod *beans*) ss)))", "*registry*",
                              "(mapv (fn [d] (when (:span-p d) (with-out-str (print d)))) (or (:booked-xf-directives *beans*) (:raw-xf-directives *beans*)))"], keep=True)
        if a is None:
            return
        more = not a.loaded.thrown and isinstance(a.results[4].value, dict)
        errs = [x for kd in ("raw", "booked") for x in (a.results[4].value.get(K(kd + "-plugins")) or {}).get(K("dct-errors")) or ()] if more else []
        if errs:
            # each error at its directive as it is now, and at its source if it has one
            said = pod_says(ctx, res, b, [{K("message"): x[K("plugin")], K("reason"): x[K("message")], K("span"): d.get(K("span-p")) or d.get(K("span")), **({K("related"): [["source", d[K("span")]]]} if K("span") in d and K("span-p") in d else {})}
                                          for d in errs for x in d[K("err")]])
            if said is None:
                return
            should = f"[limabean] {len(b.raw)} directives loaded from {path}\n{said}\n"
            if a.loaded.err != should:
                res.viol("dct-errors", f"said {a.loaded.err!r} instead of {should!r}")
        else:
            clj.run(ctx, res, None, ["1"])
        judge_pipeline(ctx, res, b, plugs, a, fail, where)
        if res.sample is None:
            res.sample = {"ledger": text[:1200], "said": a.loaded.err[:400]}
    return kind


def judge_synthetic(ds, resolved, printed, res):
    """the sources synthetic spans refer to: named after the plugins, with the directive or posting as it prints"""
    it = iter(resolved or ())
    for d, t in zip(ds or (), printed or ()):
        if K("span-p") not in d:
            continue
        name = "Synthetic directive from " + " ".join(map(str_of, d.get(K("provenance"), ())))
        r = next(it)
        c = r.get(K("content"))
        lines = t.split("\n")
        if not c and not t.isascii():       # the known finding of the spans of C13
            for p in d.get(K("postings")) or ():
                next(it) if K("span-p") in p else None
            continue
        txn = d[K("dct")] == "txn"
        if r.get(K("file-name")) != name or not isinstance(c, str) or (lines[0] if txn else t.rstrip("\n")) != c.rstrip("\n"):
            if not (txn and t.startswith(c.rstrip("\n"))):       # narration over several lines
                res.viol("synthetic", f"the synthetic source of {short(d, 300)} is {short(r)}, not {name!r}: {t!r}")
                return
        res.obs("synthetic")
        pos = len(c.rstrip("\n"))
        for p in d.get(K("postings")) or ():
            if K("span-p") in p:
                r = next(it)
                c = r.get(K("content"), "").rstrip("\n")
                if not c and not t.isascii():
                    continue
                at = t.find(c, pos)
                if r.get(K("file-name")) != name or at < 0 or p[K("acc")] not in c:
                    res.viol("synthetic", f"the synthetic source of {short(p, 300)} is {short(r)}, not {name!r}: {t!r}")
                    return
                pos = at + len(c)


def has_kind(nm, kd):
    return "only" not in nm or kd in nm


def judge_pipeline(ctx, res, b, plugs, a, fail, where):
    rxf, bds, bxf, ds, err, pl, raw, resolved, reg, printed = a.results
    for t, r in zip(("raw-xf", "booked", "booked-xf", "directives", "error", "plugins", "raw", "spans", "registry", "printed"), a.results):
        if r.thrown:
            res.viol("plugins", f"{t}: {short(r.thrown)}")
            return
    want = [{K("name"): n, K("config"): "{" + " ".join(f":{k} {ops_edn(o)}" for k, o in c.items()) + "}"} for n, c in plugs]
    if not same(want, pl.value):
        res.viol("plugins", f"(:plugins *beans*) is {short(pl.value)}")
        return
    if not same(b.raw, raw.value):
        res.viol("plugins", differ(b.raw, raw.value, ":raw-directives"))
        return
    said = a.loaded.err
    known = Plugged()
    judge_synthetic(bxf.value or rxf.value, resolved.value, printed.value, res)

    def thrown(kd, msg):
        res.obs("thrown")
        e = err.value.get(K(kd + "-plugins")) if isinstance(err.value, dict) else None
        if not isinstance(e, dict) or set(err.value) != {K(kd + "-plugins")} or e.get(K("message")) != f"Exception thrown by {kd} plugin, all {kd} plugins ignored" or not e.get(K("exception")):
            res.viol("plugin-exception", f"a {kd} plugin throws, and the error is {short(err.value)}")
        elif f"Exception thrown by {kd} plugin, all {kd} plugins ignored" not in said or msg is not None and not ("\n" + msg + "\n" in said if "\n" in msg else msg in said):
            res.viol("plugin-exception", f"a {kd} plugin throws {msg!r}; said {said!r}")
        elif ds.value != [] or "resulting from" in said:
            res.viol("plugin-exception", f"a {kd} plugin throws, yet there are directives or a claim of them: {said!r}")

    def erring(kd, out):
        bad = [d for d in out if K("err") in d]
        res.obs("dct-errors", len(bad))
        e = err.value
        got = e.get(K(kd + "-plugins"), {}).get(K("dct-errors")) if isinstance(e, dict) else None
        if got is None or set(e) != {K(kd + "-plugins")} or differ([strip(x, SPANS) for x in bad], [strip(x, SPANS) for x in got]):
            res.viol("dct-errors", f"errors of {kd} plugins: {short(e)} instead of {short(bad)}")
            return
        flat = T_plain(said)
        for d in bad:
            for x in d[K("err")]:
                if x[K("message")] not in flat or "lb.ops" not in flat:
                    res.viol("dct-errors", f"nothing is said of {x[K('message')]!r}: {said!r}")
                    return
        if ds.value != [] or "resulting from" in said:
            res.viol("dct-errors", f"errors in {kd} plugins, yet there are directives or a claim of them: {said!r}")

    # raw
    rp = [(n, c.get("raw", {})) for n, c in plugs if has_kind(n, "raw")]
    sig = [tuple(n for n, _ in plugs), fail, where if fail else None, tuple(tuple(sorted(op[0] for os_ in c.get(kd, {}).values() for op in os_)) for _, c in plugs for kd in ("raw", "booked"))]
    prev = b.raw
    if rp:
        try:
            prev = known.run([dict(d) for d in b.raw], rp, "raw")
        except Thrown as t:
            res.case(sig)
            return thrown("raw", str(t))
        except Invalid:
            res.case(sig)
            res.obs("invalid")
            return thrown("raw", None)
        if not judge_xf(prev, rxf.value, ":raw-xf-directives", res):
            return
        res.obs("raw-xf", len(prev))
        res.obs("with-provenance", sum(1 for d in prev if K("provenance") in d))
        if any(K("err") in d for d in prev):
            res.case(sig)
            return erring("raw", prev)
        base = rxf.value
    else:
        if rxf.value is not None:
            res.viol("plugins", f"no raw plugins, yet {short(rxf.value)}")
            return
        base = raw.value
    # booking: what the pod says of those very directives
    run = ctx.serve(b.path, [req("book", 1, params=wire(base)) if rp else req("book", 1)])
    if not res.served(run):
        return
    ans = run.responses()[0]
    if "error" in ans:
        res.obs("booking-refused")
        sig.append("refused")
        res.case(sig)
        e = err.value
        if not isinstance(e, dict) or set(e) != {K("booking")} or ds.value != [] or not said.count("Booking failed"):
            res.viol("booking", f"booking is refused with {short(ans['error'])}, the error is {short(e)}, said {said!r}")
        return
    want = []
    for d in as_clj(ans["result"]["directives"]):
        r = base[int(d[K("idx")])] if K("idx") in d else {}
        d = {**d, **{k: r[k] for k in (K("span"), K("span-p"), K("provenance")) if k in r}}
        if K("postings") in d:
            rps = r.get(K("postings")) or []
            d[K("postings")] = [{**p, **{k: rps[int(p[K("idx")])][k] for k in (K("span"), K("span-p"), K("provenance")) if K("idx") in p and int(p[K("idx")]) < len(rps) and k in rps[int(p[K("idx")])]}} for p in d[K("postings")]]
        want.append(d)
    d = differ(want, bds.value, ":booked-directives")
    if d:
        res.viol("booking", d)
        return
    bp = [(n, c.get("booked", {})) for n, c in plugs if has_kind(n, "booked")]
    if bp:
        try:
            out = Plugged().run([dict(d) for d in want], bp, "booked")
        except Thrown as t:
            res.case(sig)
            return thrown("booked", str(t))
        except Invalid:
            res.case(sig)
            res.obs("invalid")
            return thrown("booked", None)
        if not judge_xf(out, bxf.value, ":booked-xf-directives", res):
            return
        res.obs("booked-xf", len(out))
        res.obs("with-provenance", sum(1 for d in out if K("provenance") in d))
        if any(K("err") in d for d in out):
            res.case(sig)
            return erring("booked", out)
        final = bxf.value
    else:
        if bxf.value is not None:
            res.viol("plugins", f"no booked plugins, yet {short(bxf.value)}")
            return
        final = bds.value
    res.case(sig + [tuple(sorted({tuple(map(str, d.get(K("provenance"), ()))) for d in final}))])
    d = differ(final, ds.value, "*directives*")
    if d or err.value is not None:
        res.viol("plugins", f"{d}; error {short(err.value)}")
        return
    m = LOADED.fullmatch(said)
    if not m or int(m.group(1)) != len(b.raw) or int(m.group(3)) != len(final):
        res.viol("plugins", f"{len(b.raw)} directives parsed, {len(final)} in the end: {said!r}")
    b.directives = final
    b._ps = None
    del b._ps
    judge_registry(b, reg.value, res)


def T_plain(s):
    """without what a terminal is told"""
    return re.sub(r"\x1b\[[0-9;]*m", "", s)


kind_plugins_good = kind_plugins(0.0)
kind_plugins_failing = kind_plugins(1.0)


# ---------------------------------------------------------------- printing

def printed_form(d):
    """what is left of a directive once printed: of a number per unit and a total, the former"""
    def cost(c):
        c = {k: v for k, v in c.items() if not (k == "total" and K("per-unit") in c)}
        return c

    def item(p):
        out = {}
        for k, v in p.items():
            if k in ("span", "span-p", "idx", "provenance", "err"):
                continue
            if k == "cost":
                k = K("cost-spec")
            if k == "price" and isinstance(v, dict) and p.get(K("dct")) != "price":
                k = K("price-spec")
            if k in ("cost-spec", "price-spec"):
                v = cost(v)
                if k == "cost-spec" and v.get(K("merge")) is False:
                    v = {x: y for x, y in v.items() if x != "merge"}
            if k == "postings":
                v = [item(x) for x in v]
                if not v:
                    continue
            out[k] = v
        return out
    return item(d)


TOLERANCE = re.compile(r"^(\S+ balance \S+ \S+) (\S+) +~ ?(\S+)(.*)$")


def readable(text, ds):
    """the printing of a tolerance after the currency is the form of this program's own golden files; Beancount has it before"""
    lines, i = [], 0
    for l in text.split("\n"):
        m = TOLERANCE.match(l)
        lines.append(f"{m.group(1)} ~ {m.group(3)} {m.group(2)}{m.group(4)}" if m else l)
    return "\n".join(lines)


def reread(ctx, res, text):
    p = ctx.write("printed.beancount", text)
    run = ctx.serve(p, [req("parser.directives", 1)])
    res.files["printed"] = text
    if not res.served(run):
        return None
    a = run.responses()[0]
    if "result" not in a:
        res.viol("printed", f"what is printed cannot be read: {short(a)}")
        return None
    return as_clj(a["result"]["directives"])


def judge_printed(ctx, res, ds, text, what):
    got = reread(ctx, res, readable(text, ds))
    if got is None:
        return
    want = [printed_form(d) for d in ds]
    got = [printed_form(d) for d in got]
    if len(want) != len(got):
        res.viol("printed", f"{what}: {len(want)} directives printed, {len(got)} read back")
        return
    # the parser puts them in its own order: by date, opens and balances first; equal ones keep theirs
    rank = lambda d: (str(d[K("date")]), {"open": 0, "balance": 1}.get(str(d[K("dct")]), 2))
    want = sorted(want, key=rank)
    for i, (w, g) in enumerate(zip(want, got)):
        d = differ(w, g, f"{what}[{i}]")
        if d:
            res.viol("printed", d)
            return
    res.obs("printed-and-read", len(want))


def gen_form_ops(rng, ds):
    """operations which leave directives with and without each of the fields they may do without"""
    ops = {}
    for i, d in enumerate(ds):
        may = [k for k in ("tags", "links", "metadata", "payee", "narration", "postings", "currencies", "booking", "tolerance") if K(k) in d and not (k == "postings" and d[K("dct")] != "txn")]
        k = rng.randrange(6)
        if k == 0 and may:
            ops[i] = [["without", Kw(rng.choice(may))]]
        elif k == 1 and d[K("dct")] == "txn":
            ops[i] = [["set", {K("narration"): rng.choice(["", "n", 'q"\\'])}], ["set", {K("payee"): rng.choice(["", "p", "né"])}], ["keep"]]
        elif k == 2:
            ops[i] = [["set", {K("tags"): frozenset(rng.sample(["t1", "t2", "t-3"], rng.randrange(4))), K("links"): frozenset(rng.sample(["l1", "l2"], rng.randrange(3)))}]]
        elif k == 3:
            ops[i] = [["set", {K("metadata"): dict(rng.sample([(K("acc"), {K("acc"): "Assets:A"}), (K("kk"), {K("units"): Decimal("1.50"), K("cur"): "GBP"}), (K("bb"), {K("bool"): False}),
                                                                (K("nn"), None), (K("cur"), {K("cur"): "GBP"}), (K("link"), {K("link"): "a"}), (K("num"), {K("number"): Decimal("-7")}), (K("tag"), {K("tag"): "x"}),
                                                                (K("dd"), {K("date"): Date("2020-02-29")}), (K("ss"), {K("string"): rng.choice(["", "x y", '"', "#tag"])})], rng.randrange(6)))}]]
    return ops


def kind_print(ctx, rng, res):
    """what is printed of a directive, read again, is that directive"""
    if rng.random() < 0.3:
        ds, text, spans = W.raw_ledger(rng, n=rng.choice([1, 4, 10]))
        run = ctx.serve(ctx.write("l.beancount", text), [req("parser.directives", 1)])
        if not res.served(run):
            return
        W.judge_raw(ds, run.responses()[0], compare.Where(text, spans, ds), res)
        if res.viols:
            res.files["ledger"] = text
            return
        raw = as_clj(run.responses()[0]["result"]["directives"])
        path = ctx.write("l.beancount", "plugin \"lb.raw_only\" %s\n" % gen.esc("{:raw " + ops_edn(gen_form_ops(rng, raw)) + "}") + text)
        res.files["ledger"] = open(path, encoding="utf-8", newline="").read()
        run = ctx.serve(path, [req("parser.directives", 1)])
        if not res.served(run):
            return
        if "result" not in run.responses()[0]:
            res.inconclusive += 1
            return
        a = clj.run(ctx, res, path, ["(with-out-str (print (:raw-xf-directives *beans*)))", "(mapv (fn [d] (with-out-str (print d))) (:raw-xf-directives *beans*))", "(mapv pr-str (:raw-xf-directives *beans*))",
                                     "(print (:raw-xf-directives *beans*))", "(mapv (fn [d] (with-meta d nil)) (:raw-xf-directives *beans*))"])
        if a is None:
            return
        if a.results[4].thrown or not isinstance(a.results[4].value, list):
            res.viol("printed", f"nothing comes of the plugins: {a.loaded.err!r}")
            return
        made_ = []
        for d in a.results[4].value:
            d = {k: v for k, v in d.items() if not (k in ("tags", "links", "currencies", "metadata") and not v)}
            # a payee or narration which is empty is none
            d = {k: v for k, v in d.items() if not (k in ("payee", "narration") and v == "")}
            made_.append(d)
        ps = [(made_, a.results[:4], "made")]
    elif rng.random() < 0.5:
        ds, text, spans = W.raw_ledger(rng, n=rng.choice([1, 4, 10, 20]))
        path = ctx.write("l.beancount", text)
        run = ctx.serve(path, [req("parser.directives", 1)])
        res.files["ledger"] = text
        if not res.served(run):
            return
        W.judge_raw(ds, run.responses()[0], compare.Where(text, spans, ds), res)
        if res.viols:
            return
        raw = as_clj(run.responses()[0]["result"]["directives"])
        a = clj.run(ctx, res, path, ["(with-out-str (print (:raw-directives *beans*)))", "(mapv (fn [d] (with-out-str (print d))) (:raw-directives *beans*))", "(mapv pr-str (:raw-directives *beans*))",
                                     "(print (:raw-directives *beans*))"])
        if a is None:
            return
        ps = [(raw, a.results, "raw")]
    else:
        b = books(ctx, rng, res, rng.choice([EVERYTHING, HOLDINGS, P(big=0.9, n=[6, 12], meta=0.3, passthrough=1.0, lots=2.0)]))
        if b is None:
            return
        a = ask(ctx, res, b, [t.replace("(:raw-directives *beans*)", v) for v in ("(:raw-directives *beans*)", "*directives*")
                              for t in ("(with-out-str (print (:raw-directives *beans*)))", "(mapv (fn [d] (with-out-str (print d))) (:raw-directives *beans*))", "(mapv pr-str (:raw-directives *beans*))", "(print (:raw-directives *beans*))")])
        if a is None:
            return
        ps = [(b.raw, a.results[:4], "raw"), (b.booked, a.results[4:], "booked")]
    for ds, rs, what in ps:
        for r in rs:
            if r.thrown:
                res.viol("printed", f"printing throws {short(r.thrown)}")
                return
        whole, each, prs, _ = [r.value for r in rs]
        res.case((what, W.sig_raw([{str(k): v for k, v in d.items() if k != "postings"} for d in ds])))
        res.obs("printed-" + what, len(ds))
        if rs[3].out != whole or "\n".join(each) != whole or prs != each:
            res.viol("printed", "a directive is printed one way alone, another among others, or another by prn")
            return
        judge_printed(ctx, res, ds, whole, what)
        if res.viols:
            return
    if res.sample is None:
        res.sample = {"printed": whole[:1200]}


# ---------------------------------------------------------------- what is said of errors

def lines_of(ds):
    return "".join(gen.esc(d) for d in ds)


def pod_says(ctx, res, b, expr_spans):
    """the pod of the books still loaded, asked to format reports"""
    a = clj.run(ctx, res, None, [f"(limabean.adapter.pod/format-errors (:pod *beans*) {item_edn(expr_spans)})"])
    if a is None:
        return None
    r = a.results[0]
    if r.thrown or not isinstance(r.value, str):
        res.viol("format", f"the pod does not format {short(expr_spans)}: {short(r.thrown or r.value)}")
        return None
    return r.value


def report_of(rep, base):
    """what an indexed report is about, in the source"""
    def at(idx):
        i, j = int(idx[0]), int(idx[1]) if len(idx) > 1 and idx[1] is not None else None
        d = base[i] if 0 <= i < len(base) else None
        if d is None:
            return None, None, None
        p = None
        if j is not None and 0 <= j < len(d.get(K("postings")) or ()):
            p = d[K("postings")][j]
        name = "posting" if p is not None else "transaction" if d[K("dct")] == "txn" else str(d[K("dct")])
        own = (p or {}).get(K("span")) or d.get(K("span"))
        if K("provenance") in d and own is not None:
            name += ", modified by " + " ".join(map(str_of, d[K("provenance")]))
        dspan = d.get(K("span")) or d.get(K("span-p"))
        span = ((p or {}).get(K("span")) or (p or {}).get(K("span-p"))) or dspan
        return name, span, dspan if p is not None else None

    name, span, txn = at(rep[K("idx")])
    out = {K("message"): f"invalid {name}", K("span"): span, K("reason"): rep[K("reason")]}
    if K("annotation") in rep:
        out[K("annotation")] = rep[K("annotation")]
    if txn is not None:
        out[K("contexts")] = [["transaction", txn]]
    if rep.get(K("related")):
        out[K("related")] = [list(at(x)[:2]) for x in rep[K("related")]]
    return out


def ordered(reports):
    """the library which books names several currencies in no order"""
    out = []
    for r in reports or ():
        m = re.fullmatch(r"(.* with multiple currencies )(\S+)", r.get(K("reason"), ""), re.S)
        out.append({**r, K("reason"): m.group(1) + ",".join(sorted(m.group(2).split(",")))} if m else r)
    return out if isinstance(reports, list) else reports


def str_of(x):
    return ":" + x if isinstance(x, Kw) else x


def kind_refused(ctx, rng, res):
    """what does not book: each complaint of the pod is shown at the directive or posting it is about"""
    L = ledger(rng, rng.choice([P(err=0.6, n=[6, 12, 20]), P(err=0.9, lots=2.0, n=[8, 16]), P(err=0.5, passthrough=1.0, lifecycle=0.8, balance=1.0, pad=0.5)]), booked=False)
    if L is None:
        res.inconclusive += 1
        return
    path = ctx.write("l.beancount", L.text)
    run = ctx.serve(path, [req("parser.directives", 2), req("book", 3)])
    res.files["ledger"] = L.text
    if not res.served(run):
        return
    r0 = run.responses()[0]
    if not as_written(L, r0, run.responses()[1], res):
        return
    if "result" not in r0:
        res.inconclusive += 1
        return
    raw = as_clj(r0["result"]["directives"])
    text, plugs = L.text, []
    if rng.random() < 0.6:
        accs = sorted({d[K("acc")] for d in raw if d[K("dct")] == "open"}) or ["Assets:A"]
        for nm in rng.choice([["lb.p1"], ["lb.p2", "lb.raw_only"]]):
            o = {}
            for i, d in enumerate(raw):
                q = rng.random()
                if q < 0.35:
                    o[i] = [["set", {K("tags"): frozenset({"tag%d" % rng.randrange(99)})}]]
                elif q < 0.45:
                    o[i] = [["give", made(rng, raw, accs)], ["keep"]]
                elif q < 0.5:
                    o[i] = [["keep"], ["keep"]]
                elif q < 0.58 and K("span") in d:
                    o[i] = [["without", Kw("span")]]
            plugs.append((nm, {"raw": o}))
        text = "".join("plugin %s %s\n" % (gen.esc(n), gen.esc("{" + " ".join(f":{k} {ops_edn(o)}" for k, o in c.items()) + "}")) for n, c in plugs) + L.text
        path = ctx.write("l.beancount", text)
        res.files["ledger"] = text
    a = clj.run(ctx, res, path, ["(:raw-xf-directives *beans*)", "(:raw-directives *beans*)", "(:error *beans*)", "*directives*", "*registry*", "(:booked-directives *beans*)"], keep=True)
    if a is None:
        return
    if a.loaded.thrown or any(r.thrown for r in a.results):
        res.viol("load", f"a beanfile which does not book: {short(a.loaded.thrown or [r.thrown for r in a.results])}")
        clj.drop()
        return
    xf, rawc, err, ds, reg, bds = [r.value for r in a.results]
    base = xf if plugs else rawc
    if (xf is None) == bool(plugs):
        res.viol("load", f"{len(plugs)} raw plugins, directives from them {short(xf)}")
        return
    line = req("book", 1, params=wire(base)) if plugs else req("book", 1)
    run = ctx.serve(path, [line])
    if not res.served(run):
        return
    ans = run.responses()[0]
    if "result" in ans:
        res.inconclusive += 1
        clj.run(ctx, res, None, ["1"])
        return
    data = as_clj(ans["error"].get("data"))
    # without plugins it is the pod itself which finds the source
    want = [report_of(x, base) if plugs else x for x in data]
    got = err.get(K("booking"), {}).get(K("spanned-reports")) if isinstance(err, dict) else None
    d = differ(ordered(want), ordered(got), "spanned-reports")
    if d and isinstance(got, list) and len(got) == len(want) and arbitrary(ctx, path, got, line, lambda x: report_of(x, base) if plugs else x):
        d = None
    if d or set(err) != {K("booking")}:
        res.viol("reports", f"{d}; errors of {short(list(err or ()))}")
        return
    res.obs("reports", len(want))
    for x in want:
        res.obs("report-of-" + ("posting" if K("contexts") in x else "directive"))
        res.obs("report-related", len(x.get(K("related"), ())))
        res.obs("report-modified", "modified by" in x[K("message")])
        res.obs("report-annotated", K("annotation") in x)
    synth = {tuple(x[K("span")]) for x in want} & {tuple(d[K("span-p")]) for d in base if K("span-p") in d}
    res.obs("report-synthetic", len(synth))
    res.case((tuple(sorted({x[K("reason")][:30] + x[K("message")][:20] for x in want})), bool(plugs)))
    said = pod_says(ctx, res, None, got)
    if said is None:
        return
    should = f"[limabean] {len(rawc)} directives loaded from {path}\nBooking failed\n\n{said}\n"
    if a.loaded.err != should or a.loaded.out:
        res.viol("said", f"{a.loaded.err!r} instead of {should!r}")
    if ds != [] or bds is not None or reg is not None:
        res.viol("refused", f"what does not book leaves directives {short(ds)}")
    if res.sample is None:
        res.sample = {"ledger": text[:800], "said": a.loaded.err[:600]}


def kind_unparsed(ctx, rng, res):
    """what does not parse: the complaints of the pod, and nothing else"""
    from . import source_checks as S
    ds, text, spans = W.raw_ledger(rng, n=rng.choice([1, 4, 10]))
    starts = sorted(s for s, _, _ in spans.values())
    lines = [rng.choice(S.BADLINES + S.FAULTS["meaning"]) for _ in range(rng.choice([1, 1, 2, 3]))]
    b = text.encode()
    for at, l in sorted(((rng.choice(starts), l) for l in lines), reverse=True):
        b = b[:at] + (l + "\n").encode() + b[at:]
    if rng.random() < 0.3:
        b = b'plugin "lb.p1"\n' + b
    path = ctx.write("u.beancount", b)
    res.files["ledger"] = b.decode(errors="replace")
    run = ctx.serve(path, [req("parser.plugins", 1), req("parser.directives", 2)])
    if not res.served(run):
        if b"rust_decimal" in run.err:
            res.viols.clear()
            res.inconclusive += 1
        return
    ans = run.responses()[0]
    if "result" in ans:
        res.inconclusive += 1
        return
    a = clj.run(ctx, res, path, ["(:error *beans*)", "[*directives* *options* *registry* (dissoc *beans* :pod :error)]"], keep=True)
    if a is None:
        return
    res.case((tuple(sorted(lines)),))
    res.obs("unparsed")
    want = {K("parser"): {K("spanned-reports"): as_clj(ans["error"]["data"])}}
    if a.loaded.thrown:
        res.viol("unparsed", f"loading throws {short(a.loaded.thrown)}")
        clj.drop()
        return
    d = differ(want, a.results[0].value)
    said = pod_says(ctx, res, None, want[K("parser")][K("spanned-reports")])
    if said is None:
        return
    should = f"[limabean] 0 directives loaded from {path}\n{said}\n"
    if d or a.loaded.err != should or a.loaded.out:
        res.viol("unparsed", f"{d}; said {a.loaded.err!r} instead of {should!r}")
    if a.results[1].value != [[], {}, None, {K("path"): path}]:
        res.viol("unparsed", f"what does not parse leaves {short(a.results[1].value)}")
    if res.sample is None:
        res.sample = {"ledger": b.decode(errors="replace")[:600], "said": a.loaded.err[:400]}


CONFIGS = [("{:a 1", "x"), ("{:a}", "x"), ("}", "x"), ("#nope 1", "x"), ("[1 2", "x"), ("#time/date \"2020-02-30\"", "x"), ("#regex \"(\"", "x"), ("{:a 1 :a 2}", "x"),
           ("{:n 1.50M :s \"t\" :k :v :l [1 2 nil true]}", {K("n"): Decimal("1.50"), K("s"): "t", K("k"): K("v"), K("l"): [1, 2, None, True]}), ("", "e"), ("#time/date \"2020-02-29\"", Date("2020-02-29")),
           ("[#{\"a\"} {\"b\" 2}]", [frozenset({"a"}), {"b": 2}]), ("17 18", 17), ("; nothing", "e"), ("nil", None), (" {:a 1} ", {K("a"): 1}), ("\n:k\n", K("k")), ("\t\"x \"", "x ")]
NOPLUG = {"lb.missing": "could not load namespace for plugin", "lb.broken": "could not load namespace for plugin", "lb.neither": "Failed to find either booked-xf or raw-xf in plugin",
          "no such": "could not load namespace for plugin", "lb..x": "could not load namespace for plugin"}


def kind_unresolved(ctx, rng, res):
    """plugins are resolved with their configuration and the options, in order; those which cannot be are said to be, and nothing is then processed"""
    L = ledger(rng, P(n=[4, 8]))
    if L is None:
        res.inconclusive += 1
        return
    plugs, bad, seen, maybe = [], [], {}, False
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        k = rng.randrange(7)
        if k == 0:
            n = rng.choice(list(NOPLUG))
            plugs.append((n, None))
            bad.append((n, NOPLUG[n]))
        elif k == 1:
            m = "boom %d" % rng.randrange(999)
            plugs.append(("lb.touchy", "{:boom \"%s\"}" % m))
            bad.append(("lb.touchy", "Error resolving config: " + m))
        elif k == 2:
            plugs.append(("lb.touchy", rng.choice(["{}", "{:boom nil}", "nil", None])))
        else:
            n = rng.choice(["lb.p1", "lb.p2", "lb.p_3"])
            c = rng.choice(CONFIGS)
            if rng.random() < 0.25:
                plugs.append((n, None))
                seen[n] = None
            else:
                plugs.append((n, c[0]))
                if c[1] == "x":
                    bad.append((n, None))
                elif c[1] == "e":
                    # nothing to read: either an error or no configuration
                    seen[n] = "?"
                    maybe = True
                else:
                    seen[n] = c[1]
    text = "".join("plugin %s%s\n" % (gen.esc(n), "" if c is None else " " + gen.esc(c)) for n, c in plugs) + L.text
    path = ctx.write("l.beancount", text)
    res.files["ledger"] = text
    run = ctx.serve(path, [req("parser.options", 1), req("parser.directives", 2)])
    if not res.served(run):
        return
    if "result" not in run.responses()[0]:
        res.inconclusive += 1
        return
    opts = as_clj(run.responses()[0]["result"])
    names = ["lb.p1", "lb.p2", "lb.p_3"]
    a = clj.run(ctx, res, path, ["(:error *beans*)", "(mapv #(select-keys % [:name :config :err]) (:plugins *beans*))", "*directives*", "(:raw-directives *beans*)", "*options*"]
                + [f"(when-let [v (find-ns '{n.replace('_', '-')})] @@(ns-resolve v 'seen))" for n in names])
    if a is None:
        return
    if a.loaded.thrown:
        res.viol("unresolved", f"loading throws {short(a.loaded.thrown)}")
        return
    err, pl, ds, raw, o = [r.value for r in a.results[:5]]
    res.case((tuple((n, None if c is None else c[:12]) for n, c in plugs),))
    said = a.loaded.err
    if [x.get(K("name")) for x in pl] != [n for n, _ in plugs] or [x.get(K("config")) for x in pl] != [c for _, c in plugs]:
        res.viol("unresolved", f"plugins {short(pl)} instead of {plugs}")
        return
    errs = [x for x in pl if K("err") in x]
    lines = re.findall(r"^ERROR in plugin (.*?) - (.*)$", said, re.M)
    if not maybe:
        if [x[K("name")] for x in errs] != [n for n, _ in bad] or [n for n, _ in lines] != [n for n, _ in bad]:
            res.viol("unresolved", f"errors in {short(errs)}, said {lines}, instead of {bad}")
            return
        for (n, m), x, (_, t) in zip(bad, errs, lines):
            g = x[K("err")].get(K("message"))
            if m is not None and g != m or m is None and (not isinstance(g, str) or not g.startswith("Error resolving config: ") or len(g) < 26) or not isinstance(g, str) or g.split("\n")[0] != t:
                res.viol("unresolved", f"{n}: {short(x)} and said {t!r} instead of {m!r}")
                return
    res.obs("unresolved", len(bad))
    res.obs("configured", len(seen))
    if not same(opts, o):
        res.viol("unresolved", "options " + str(differ(opts, o)))
    if errs:
        # nothing further is done
        got = err.get(K("plugins")) if isinstance(err, dict) else None
        if not isinstance(got, list) or [x.get(K("name")) for x in got] != [x[K("name")] for x in errs] or set(err) != {K("plugins")}:
            res.viol("unresolved", f"error {short(err)} instead of that of {[x[K('name')] for x in errs]}")
        if ds != [] or raw is not None or "resulting from" in said:
            res.viol("unresolved", f"plugins not resolved, yet directives {short(ds)} {short(raw)}; said {said!r}")
    else:
        if err is not None or "resulting from" not in said or not ds and raw:
            res.viol("unresolved", f"plugins resolved, error {short(err)}, said {said!r}")
    for n, r in zip(names, a.results[5:]):
        want = seen.get(n, "no")
        if want in ("no", "?") or not any(x == n for x, _ in plugs):
            continue
        if any(x == n for x, _ in bad) or sum(x == n for x, _ in plugs) > 1 and not same(want, (r.value or {}).get(K("config"))):
            continue
        if r.thrown or not isinstance(r.value, dict) or not same(want, r.value.get(K("config"))) or not same(opts, r.value.get(K("options"))):
            res.viol("configured", f"{n} is given {short(r.thrown or r.value)} instead of configuration {short(want)} and the options")
    if res.sample is None:
        res.sample = {"plugins": plugs, "said": said[:400]}


# ---------------------------------------------------------------- plugins which do nothing

NOOPS = [["lb.p1"], ["lb.p2", "lb.p1"], ["lb.raw_only"], ["lb.booked-only"], ["lb.booked_only", "lb.p-3", "lb.p1"], ["limabean.plugin-none"]][:5]


def arbitrary(ctx, path, reports, line=None, about=lambda x: x, tries=60):
    """of several reasons why a transaction does not book, the library gives one, and not always the same: whether all these have been given"""
    def key(x):
        if isinstance(x, dict):
            return tuple(sorted((str(k), key(v)) for k, v in x.items()))
        if isinstance(x, (list, tuple)):
            return tuple(map(key, x))
        return int(x) if isnum(x) else x

    left = {key(r) for r in ordered(reports or [])}
    for _ in range(tries):
        a = ctx.serve(path, [line or req("book", 1)]).responses()
        if not a or "error" not in a[0] or not a[0]["error"].get("data"):
            return False
        left -= {key(r) for r in ordered([about(x) for x in as_clj(a[0]["error"]["data"])])}
        if not left:
            return True
    return False


def kind_identity(ctx, rng, res):
    """plugins which pass on what they are given make no difference, whatever the beanfile, booked or refused"""
    k = rng.randrange(5)
    if k == 0:
        ds, text, _ = W.raw_ledger(rng, n=rng.choice([1, 5, 12, 25]))
        kind = "any"
        run = ctx.serve(ctx.write("again.beancount", text), [req("book", 1)])
        if b"rust_decimal" in run.err:      # arithmetic beyond what a decimal holds ends the pod
            res.inconclusive += 1
            return
    else:
        booked = k < 3
        L = ledger(rng, rng.choice([EVERYTHING, HOLDINGS, ORDINARY]) if booked else P(err=0.6, n=[6, 12, 20], passthrough=0.7), booked=booked)
        if L is None:
            res.inconclusive += 1
            return
        text, kind = L.text, "booked" if booked else "refused"
    if not text.endswith("\n"):
        text += "\n"
    plugs = rng.choice(NOOPS)
    evals = ["(:raw-directives *beans*)", "*directives*", "*registry*", "*options*", "(:error *beans*)", "(= (or (:raw-xf-directives *beans*) (:raw-directives *beans*)) (:raw-directives *beans*))"]
    out = []
    for t in (text, text + "".join(f"plugin {gen.esc(p)}\n" for p in plugs)):
        path = ctx.write("l.beancount", t)
        res.files["ledger"] = t
        a = clj.run(ctx, res, path, evals)
        if a is None:
            return
        if a.loaded.thrown or any(r.thrown for r in a.results):
            res.viol("load", f"loading throws {short(a.loaded.thrown or [r.thrown for r in a.results])}")
            return
        out.append(a)
    one, two = out
    res.case((kind, len(plugs), W.sig_raw([{str(k): v for k, v in d.items() if k not in ("postings", "values")} for d in one.results[0].value or []])))
    if isinstance(one.results[4].value, dict) and K("parser") in one.results[4].value:
        res.inconclusive += 1
        return
    res.obs("unchanged-" + ("booked" if one.results[4].value is None else "refused"))
    res.obs("unchanged", len(one.results[0].value or ()))
    reports = lambda a: ordered(((a.results[4].value or {}).get(K("booking")) or {}).get(K("spanned-reports")))
    for t, x, y in zip(evals, one.results, two.results):
        if t == "(:error *beans*)" and isinstance(x.value, dict) and isinstance(y.value, dict):
            d = differ([list(x.value), reports(one)], [list(y.value), reports(two)])
        else:
            d = differ(x.value, y.value, t)
        if d and t == "(:error *beans*)" and reports(two) and isinstance(x.value, dict) and list(x.value) == list(y.value) and arbitrary(ctx, ctx.write("again.beancount", text), reports(two)):
            res.obs("arbitrary")
            res.inconclusive += 1
            return
        if d:
            res.viol("identity", f"plugins which do nothing ({' '.join(plugs)}): {d}")
            return
    if one.loaded.err != two.loaded.err and differ(one.results[4].value, two.results[4].value) is None:
        res.viol("identity", f"plugins which do nothing: said {two.loaded.err!r} instead of {one.loaded.err!r}")
    if res.sample is None:
        res.sample = {"plugins": plugs, "ledger": text[:500], "said": two.loaded.err[:300]}


# ---------------------------------------------------------------- the program

USAGE = ["-h, --help", "-v, --verbose", "--version", "--beanfile PATH", "--eval EXPR"]


class Ran:
    def __init__(self, out, err, rc, left):
        self.out, self.err, self.rc, self.left = out, err, rc, left

    def __str__(self):
        return f"exit {self.rc}, stdout {self.out!r}, stderr {self.err!r}"


def program(ctx, args, env=None, data=b"", cwd=None, launcher="limabean"):
    """limabean as a user runs it, from its jar"""
    e = ctx.env()
    d = ctx.path("bin")
    os.makedirs(d, exist_ok=True)
    pod = os.path.join(d, "limabean-pod")
    if not os.path.exists(pod):
        try:
            os.symlink(ctx.bins["limabean-pod"], pod)
        except FileExistsError:
            pass
    e["PATH"] = d + ":" + os.environ.get("PATH", "/usr/bin:/bin") + ":/usr/bin:/bin"
    e.update({"LIMABEAN_UBERJAR": clj.jar(ctx.bins["ljc"], ctx.path("limabean-%d.jar" % os.getpid())), "LJC_LIB": os.path.join(clj.LJC, "lib"), "LJC_PATH": ":".join(clj.sources())})
    e.update(env or {})
    with tempfile.TemporaryFile(dir=ctx.tmp) as so, tempfile.TemporaryFile(dir=ctx.tmp) as se:
        p = subprocess.Popen([ctx.bins[launcher]] + args, stdin=subprocess.PIPE, stdout=so, stderr=se, env=e, cwd=cwd, start_new_session=True)
        clj.note(ctx.tmp, p.pid)
        try:
            p.communicate(data, timeout=TIMEOUT)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            return None
        finally:
            clj.note(ctx.tmp, -p.pid)
        # what it started ends with it
        end = time.time() + 10
        while True:
            left = in_session(p.pid)
            if not left or time.time() > end:
                break
            time.sleep(0.02)
        for q in left:
            try:
                os.kill(q, 9)
            except OSError:
                pass
        so.seek(0)
        se.seek(0)
        r = Ran(so.read().decode(errors="replace"), se.read().decode(errors="replace"), p.returncode, left)
    if "LJC-UNSUPPORTED" in r.err or r.rc == 97:
        raise clj.Gap(r.err)
    return r


def in_session(sid):
    """processes of a session, but zombies"""
    out = []
    for q in os.listdir("/proc"):
        if q.isdigit():
            try:
                with open(f"/proc/{q}/stat") as f:
                    st = f.read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if st[3] == str(sid) and st[0] not in "ZX":
                out.append(int(q))
    return out


def said_loading(b, path):
    return f"[limabean] {len(b.raw)} directives loaded from {path}\n[limabean] {len(b.booked)} directives resulting from booking and running plugins\n"


def evals_of(rng, b):
    """(expression, what it writes, the status it exits with)"""
    opens = sorted(d[K("acc")] for d in b.booked if d[K("dct")] == "open" and d[K("acc")].isascii())
    k = rng.randrange(9)
    if k == 0:
        return "(println (count *directives*))", f"{len(b.booked)}\n", "", 0
    if k == 1:
        return '(print "no line end")', "no line end", "", 0
    if k == 2:
        return '(run! println (sort (filter #(re-find #"^[ -~]*$" %) (map :acc (filter #(= :open (:dct %)) *directives*)))))', "".join(x + "\n" for x in opens), "", 0
    if k == 3:
        return "(println (count (journal)))", f"{len(b.postings())}\n", "", 0
    if k == 4:
        return '(binding [*out* *err*] (println "to err"))', "", "to err\n", 0
    if k == 5:
        return "(System/exit 3)", "", "", 3
    if k == 6:
        return "(+ 1 2)", "", "", 0
    if k == 7:
        return "(do (def x 5) (println (inc x) (ifn? f/acc) (ifn? type/directives) (ifn? pprint) *exception*))", "6 true true true nil\n", "", 0
    return '(println "a\\tb" \'c [1 2.50M nil])', "a\tb c [1 2.50M nil]\n", "", 0


def kind_program(ctx, rng, res):
    """arguments, environment, exit status and output of the program"""
    b = books(ctx, rng, res, P(n=[2, 5], meta=0, err=0))
    if b is None:
        return
    d = ctx.fresh()
    # beanfiles may have any name, that of a command or an option of the launcher too
    odd = rng.choice(["health", "--version", "-v", "serve", "good one", "x=y"])
    for n in ("good.beancount", odd):
        with open(os.path.join(d, n), "wb") as f:
            f.write(b.text.encode())
    os.mkdir(os.path.join(d, "dir.beancount"))
    p = lambda q: rng.random() < q
    help_, verbose, version, unknown, superfluous = p(0.06), p(0.2), p(0.06), p(0.08), p(0.08)
    pick = lambda: rng.choice(["good.beancount"] * 14 + ["missing.beancount", "dir.beancount", os.path.join(d, "good.beancount")])
    parts, env = [], {}
    path = None
    if p(0.4):
        path = env["LIMABEAN_BEANFILE"] = odd if p(0.1) else pick()
    if p(0.6) or path is None and p(0.85):
        path = odd if p(0.1) and odd[0] != "-" else pick()
        parts.append(rng.choice([["--beanfile", path], ["--beanfile=" + path]]))
    if help_:
        parts.append([rng.choice(["-h", "--help"])])
    if verbose:
        parts.append([rng.choice(["-v", "--verbose"])])
    if version:
        parts.append(["--version"])
    un = rng.choice(["--nope", "-z", "--beanfiles", "--evaluate=x"])
    if unknown:
        parts.append([un])
    extra = rng.sample(["x", "some thing", "inventory", "good.beancount", "health"], rng.choice([1, 2]))
    if superfluous:
        parts.extend([x] for x in extra)
    # the order of what is superfluous is kept
    ev = rng.choice(["good"] * 4 + ["throw", "unread", None])
    expr, out, err, rc = evals_of(rng, b)
    msg = "thrown %d" % rng.randrange(10 ** 6)
    if ev == "throw":
        expr = rng.choice([f'(throw (ex-info "{msg}" {{}}))', f'(throw (Exception. "{msg}"))', f'(throw (RuntimeException. "{msg}"))'])
    if ev == "unread":
        expr = rng.choice(["(+ 1", "[1 2", "{:a", '"abc', ")"])
    if ev:
        parts.append(rng.choice([["--eval", expr], ["--eval=" + expr]]))
    fixed = [x for x in parts if len(x) == 1 and x[0] in extra]
    rng.shuffle(parts)
    it = iter(fixed)
    parts = [next(it) if x in fixed else x for x in parts]
    args = [a for x in parts for a in x]
    if args and args[0] == "health":
        res.inconclusive += 1
        return
    stdin = b""
    if ev is None:
        stdin = "(println (count *directives*))\n(throw (ex-info \"{0}\" {{}}))\n(str (count (journal)))\n".format(msg).encode()
    r = program(ctx, args, env, stdin, cwd=d)
    res.files["ledger"] = b.text
    res.files["command"] = " ".join(args) + "\n" + repr(env)
    if r is None:
        res.viol("hung", f"limabean {args} with {env} does not end")
        return
    wout, werr = "", None
    exact = True
    if version:
        wout += f"limabean.rs  {T.version(ctx)}\n"
    err_ = r.err
    if verbose:
        first, _, err_ = err_.partition("\n")
        if not first.startswith('"java"') or not all(json.dumps(a)[1:-1] in first or a in first for a in args):
            res.viol("verbose", f"{args}: the command is said to be {first!r}")
    said = said_loading(b, path)
    good = path is not None and (path == odd or path.endswith("good.beancount"))
    if help_:
        how, wrc = "help", 0
        if not all(u in err_ for u in USAGE) or "usage" not in err_:
            res.viol("usage", f"{args}: {r}")
    elif unknown:
        how, wrc = "unknown", 1
        name = un.split("=")[0]
        if not err_.startswith("limabean: argument parsing errors:\n") or name not in err_:
            res.viol("usage", f"{args}: {r}")
    elif version:
        how, wrc, werr = "version", 0, ""
        m = re.fullmatch(re.escape(wout) + r"limabean\.clj \S+\n", r.out)
        if m:
            wout = r.out
    elif path is None:
        how, wrc, werr = "no-beanfile", 1, "limabean: --beanfile or $LIMABEAN_BEANFILE is required\n"
    elif not good:
        how, wrc, werr = "no-such", 1, f"limabean: no such beanfile {path}\n"
    elif superfluous:
        how, wrc, werr = "superfluous", 1, "superfluous arguments: " + " ".join(extra) + "\n"
    elif ev == "good":
        how, wrc, werr = "good", rc, said + err
        wout += out
    elif ev == "throw":
        how, wrc = "throw", 1
        if not err_.startswith(said + f"Exception: {msg}\n"):
            res.viol("thrown", f"{args}: {r}")
    elif ev == "unread":
        how, wrc = "unread", 1
        if "Exception: " not in err_ or "Exception: null" in err_:
            res.viol("unread", f"{args}: {r}")
    else:
        how, wrc, werr = "repl", 0, said + f"Exception: {msg}\n"
        wout += f"{len(b.booked)}\nnil\n\"{len(b.postings())}\"\n"
    res.case((how, verbose, version, help_, unknown, superfluous, path and path[-9:], "LIMABEAN_BEANFILE" in env, ev, expr[:30]))
    res.obs("program-" + how)
    if r.rc != wrc:
        res.viol("status", f"{args} with {env}: {r}; {wrc} expected")
    elif r.out != wout or werr is not None and err_ != werr:
        res.viol("output", f"{args} with {env}: {r}; {wout!r} and {werr!r} expected")
    if r.left:
        res.viol("left", f"{args}: {len(r.left)} processes are left running")
    if res.sample is None:
        res.sample = {"args": args, "env": env, "ran": str(r)[:500]}


DYING = """#!/bin/bash
# the pod, as far as it goes: MODE COUNT, beside this
d=$(dirname "$0")
read -r mode count < "$d/mode"
if [ "$1" = tabulate ]; then
    cat > /dev/null
    [ "$mode" = tabulate ] && { printf '%s' "$(cat "$d/said")" >&2; exit "$count"; }
    exit 99
fi
pass() {
    for ((i = 0; i < count; i++)); do
        IFS= read -r l || exit
        printf '%s\\n' "$l"
        echo x >> "$d/passed"
    done
}
case $mode in
exit|tabulate) pass | "$d/real" "$@";;
kill) pass | "$d/real" "$@"; read -r l; kill -9 $$;;
half) pass | "$d/real" "$@"; read -r l; printf '{"jsonrpc":"2.0","id":'; exit 0;;
esac
"""


def kind_dying(ctx, rng, res):
    """a pod which ends before it has answered is complained of, and never taken for a ledger of nothing"""
    plugs = rng.choice([False, False, True])
    b = books(ctx, rng, res, P(n=[2, 5], meta=0, err=0))
    if b is None:
        return
    d = ctx.fresh()
    os.mkdir(os.path.join(d, "bin"))
    pod = os.path.join(d, "bin", "limabean-pod")
    with open(pod, "w") as f:
        f.write(DYING)
    os.chmod(pod, 0o755)
    os.symlink(ctx.bins["limabean-pod"], os.path.join(d, "bin", "real"))
    with open(os.path.join(d, "good.beancount"), "wb") as f:
        f.write((('plugin "beancount.plugins.auto_accounts"\n2001-01-01 * "before"\n  Assets:BeforeHand  1 USD\n  Assets:BeforeHand  -1 USD\n' if plugs else "") + b.text).encode())

    def go(mode, count, expr):
        with open(os.path.join(d, "bin", "mode"), "w") as f:
            f.write("%s %d\n" % (mode, count))
        p = os.path.join(d, "bin", "passed")
        open(p, "w").close()
        r = program(ctx, ["--beanfile", "good.beancount", "--eval", expr], {"PATH": os.path.join(d, "bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin") + ":/usr/bin:/bin"}, cwd=d)
        if r is None:
            res.viol("hung", f"limabean does not end when its pod has ended ({mode} after {count})")
        return r, os.path.getsize(p) // 2
    expr = '(do (println "n" (count *directives*)) (println "raw" (count (:raw-directives *beans*))))'
    r, most = go("exit", 10 ** 6, expr)
    if r is None:
        return
    n = len(b.booked) + 2 * plugs
    raw = len(b.raw) + plugs
    if r.rc or r.out != f"n {n}\nraw {raw}\n" or f"{n} directives resulting" not in r.err or most < 5:
        res.viol("alive", f"{r}; {n} directives expected")
        return
    mode = rng.choice(["exit", "exit", "kill", "half", "tabulate"])
    res.files["ledger"] = b.text
    if mode == "tabulate":
        said = "no table %d" % rng.randrange(10 ** 6)
        with open(os.path.join(d, "bin", "said"), "w") as f:
            f.write(said)
        with open(os.path.join(d, "bin", "mode"), "w") as f:
            f.write("tabulate 1\n")
        rc = rng.choice([1, 2, 101])
        go_count = 10 ** 6
        # the count is of requests for a server, and the status for a table
        with open(pod, "w") as f:
            f.write(DYING.replace('exit "$count"', "exit %d" % rc))
        r, _ = go("tabulate", go_count, "(show (inventory))")
        if r is None:
            return
        res.case((mode, rc))
        res.obs("dying-tabulate")
        if r.rc != 1 or r.out or said not in r.err:
            res.viol("untold", f"a table which cannot be drawn ({said}, status {rc}): {r}")
        return
    at = rng.randrange(most)
    r, passed = go(mode, at, expr)
    if r is None:
        return
    res.case((mode, at, most, plugs))
    res.obs("dying-" + mode)
    res.obs("dying-at-%d" % at)
    what = f"the pod ended ({mode}) with {at} of {most} requests answered"
    if "directives resulting" in r.err or r.out not in ("", f"n 0\nraw {raw}\n"):
        res.viol("taken", f"{what}: {r}")
    elif mode != "half" and "limabean-pod ended" not in r.err or mode == "half" and "xception" not in r.err and "Booking failed" not in r.err:
        res.viol("untold", f"{what}: {r}")
    elif r.rc not in (0, 1):        # as for any other mistake, what could be loaded can be looked at
        res.viol("status", f"{what}: {r}")
    elif r.left:
        res.viol("left", f"{what}: {len(r.left)} processes are left running")
    if res.sample is None:
        res.sample = {"ended": what, "said": r.err[:300]}


def kind_user_clj(ctx, rng, res):
    """the files of $LIMABEAN_USER_CLJ are loaded in order, with the beanfile loaded, each whatever became of the others"""
    b = books(ctx, rng, res, P(n=[2, 5], meta=0, err=0))
    if b is None:
        return
    d = ctx.fresh()
    with open(os.path.join(d, "good.beancount"), "wb") as f:
        f.write(b.text.encode())
    names, out, failed, defined, causes = [], "", [], [], []
    for i in range(rng.choice([1, 1, 2, 3, 5])):
        n = rng.choice(["u%d.clj", "some thing %d.clj", "sub/x%d.clj", "y%d"]) % i
        os.makedirs(os.path.dirname(os.path.join(d, n)) or d, exist_ok=True)
        k = rng.choice(["good"] * 5 + ["missing", "throws", "caused", "unread", "unresolved", "empty"])
        sofar = out
        t = f'(println "in {i}" (count *directives*))\n'
        if k == "missing":
            failed.append((n, None))
        elif k == "empty":
            t = rng.choice(["", "; nothing\n"])
        else:
            out += f"in {i} {len(b.booked)}\n"
            if k == "good":
                t += f"(def v{i} {i * 7})\n(defn f{i} [] (+ v{i} (count (journal))))\n"
                if defined and rng.random() < 0.5:
                    t += f'(println "before" (f{defined[-1]}))\n'
                    out += f"before {defined[-1] * 7 + len(b.postings())}\n"
                defined.append(i)
            elif k == "throws":
                t += f'(throw (ex-info "failing {i}" {{}}))\n(println "never")\n'
                failed.append((n, f"failing {i}"))
            elif k == "caused":
                t += f'(throw (RuntimeException. "failing {i}" (ex-info "because {i}" {{}})))\n'
                failed.append((n, f"failing {i}"))
                causes.append(f"Exception: failing {i}\nbecause {i}\n")
            elif k == "unread":
                t += "(println 1\n"
                failed.append((n, None))
            else:
                t += "(no-such-function 1)\n"
                failed.append((n, None))
        if k != "missing":
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        names.append(n if rng.random() < 0.7 else os.path.join(d, n))
        if rng.random() < 0.15:
            # and again, as often as it is given
            o = out[len(sofar):]
            for _ in range(rng.choice([1, 1, 2])):
                names.append(names[-1])
                out += o
                if failed and failed[-1][0] == n:
                    failed.append(failed[-1])
                    if causes and causes[-1].startswith(f"Exception: failing {i}\n"):
                        causes.append(causes[-1])
    failed = [(next(x for x in names if x.endswith(n)), m) for n, m in failed]
    expr = "(println" + "".join(f" (f{i})" for i in defined) + ")"
    out += " ".join(str(i * 7 + len(b.postings())) for i in defined) + "\n"
    env = {"LIMABEAN_USER_CLJ": ":".join(names)}
    r = program(ctx, ["--beanfile", "good.beancount", "--eval", expr], env, cwd=d)
    res.files["ledger"] = b.text
    if r is None:
        res.viol("hung", f"limabean with {env} does not end")
        return
    res.case((tuple(names).__len__(), tuple(n[-6:] for n, _ in failed), tuple(defined)))
    res.obs("user-clj", len(names))
    res.obs("user-clj-failed", len(failed))
    said = said_loading(b, "good.beancount")
    rest = r.err[len(said):]
    complaints = re.findall(r"^Failed to load (.*) from \$LIMABEAN_USER_CLJ\nException: (.*)$", rest, re.M)
    if r.rc != 0 or r.out != out or not r.err.startswith(said):
        res.viol("user-clj", f"{env}: {r}; expected stdout {out!r}")
    elif [c[0] for c in complaints] != [n for n, _ in failed] or any(m is not None and c[1] != m or not c[1] for c, (_, m) in zip(complaints, failed)) or not failed and rest:
        res.viol("user-clj", f"{env}: failing are {failed}, complaints are {complaints}: {r}")
    else:
        at = 0
        for c in causes:
            at = rest.find(c, at)
            if at < 0:
                res.viol("user-clj", f"{env}: {c!r} is not said, or not so often: {rest!r}")
                break
            at += len(c)
    if r.left:
        res.viol("left", f"{len(r.left)} processes are left running")
    if res.sample is None:
        res.sample = {"env": env, "ran": str(r)[:500]}


def kind_dumped(ctx, rng, res):
    """$LIMABEAN_DEBUG_DIR is given the directives of each stage, as they print"""
    L = ledger(rng, rng.choice([P(n=[4, 8]), EVERYTHING]), booked=rng.random() < 0.85)
    if L is None:
        res.inconclusive += 1
        return
    text = L.text
    if rng.random() < 0.7:
        accs = ["Assets:A"]
        for nm in rng.choice([["lb.p1"], ["lb.raw_only"], ["lb.booked-only"], ["lb.p2", "lb.p1"]]):
            mk = lambda: {"end": [["give", {K("dct"): Kw("event"), K("date"): Date("2024-01-01"), K("type"): "made", K("description"): "e%d" % rng.randrange(99)}]]} if rng.random() < 0.7 else {"else": [["set", {K("tags"): frozenset({"t%d" % rng.randrange(99)})}]]}
            cfg = {"raw": mk(), "booked": mk()}
            k = rng.randrange(8)
            kd = rng.choice(["raw", "booked"])
            if k == 0:
                cfg[kd] = {"else": []}       # nothing is left
            elif k == 1:
                cfg[kd] = {rng.randrange(6): [["err", "dumped all the same"]]}
            elif k == 2:
                cfg[kd] = {"else": [["set-err", {K("tags"): frozenset({"bad"})}, "dumped all the same"]]}
            text = "plugin %s %s\n" % (gen.esc(nm), gen.esc("{" + " ".join(f":{k} {ops_edn(o)}" for k, o in cfg.items()) + "}")) + text
    d = ctx.fresh()
    name, base = rng.choice([("l.beancount", "l"), ("my books", "my books"), ("a.b.bean", "a.b"), ("x/deep.beancount", "deep")])
    os.makedirs(os.path.join(d, "x"))
    with open(os.path.join(d, name), "wb") as f:
        f.write(text.encode())
    how = rng.choice(["there"] * 6 + ["missing", "none"])
    env = {} if how == "none" else {"LIMABEAN_DEBUG_DIR": os.path.join(d, "dump")}
    if how != "missing":
        os.mkdir(os.path.join(d, "dump"))
    stages = ["raw", "raw-xf", "booked", "booked-xf"]
    expr = "(doseq [k [" + " ".join(f":{s}-directives" for s in stages) + "]] (spit (str (name k) \".txt\") (if-let [ds (k *beans*)] (str \"+\" (with-out-str (print ds))) \"-\")))"
    r = program(ctx, ["--beanfile", name, "--eval", expr], env, cwd=d)
    res.files["ledger"] = text
    if r is None:
        res.viol("hung", f"limabean with {env} does not end")
        return
    if r.rc != 0:
        res.viol("dumped", f"{env}: {r}")
        return
    want = {}
    for s in stages:
        t = open(os.path.join(d, f"{s}-directives.txt"), encoding="utf-8", newline="").read()
        if t[:1] == "+":
            want[f"{base}.{s}.beancount"] = t[1:]
    dd = os.path.join(d, "dump")
    got = {n: open(os.path.join(dd, n), encoding="utf-8", newline="").read() for n in os.listdir(dd)} if os.path.isdir(dd) else {}
    res.case((how, name, tuple(sorted(want)), len(L.ds)))
    res.obs("dump-" + how)
    if how == "there":
        for n in want:
            res.obs("dumped-" + n[len(base) + 1:-10])
            if not want[n]:
                res.obs("dumped-nothing")
        if "dumped all the same" in r.err:
            res.obs("dumped-erring")
        if got != want:
            bad = [n for n in sorted(set(want) | set(got)) if want.get(n) != got.get(n)]
            res.viol("dumped", f"{bad[0]}: {got.get(bad[0])!r} instead of {want.get(bad[0])!r}")
    elif got or how == "missing" and r.err.count("WARNING: $LIMABEAN_DEBUG_DIR") != len(want):
        res.viol("dumped", f"{how}: files {sorted(got)}, {len(want)} expected to be warned of: {r}")
    if res.sample is None:
        res.sample = {"dumped": {n: t[:200] for n, t in got.items()}}


def kind_plugins_wide(ctx, rng, res):
    """many directives through many plugins: each is known for changed, however many there are"""
    n, m = rng.randrange(13000, 16000), rng.randrange(9, 12)
    kd = rng.choice(["raw", "raw", "booked"])
    text = "".join('plugin "lb.p1" "{:%s {:else [[:set {:tags #{\\"t%d\\"}}]]}}"\n' % (kd, i) for i in range(m))
    text += "2020-01-01 open Assets:A\n" + "".join('2020-01-02 note Assets:A "n%d"\n' % i for i in range(n))
    path = ctx.write("l.beancount", text)
    res.files["ledger"] = text[:3000] + "..."
    a = clj.run(ctx, res, path, ["(count *directives*)", "(frequencies (map (fn [d] [(count (:provenance d)) (boolean (:span-p d)) (:tags d)]) *directives*))"], keep=True)
    if a is None:
        return
    n_, fr = (r.value for r in a.results)
    want = {(m + (kd == "booked"), True, frozenset({"t%d" % (m - 1)})): n + 1}
    got = {(int(k[0]), k[1], k[2]): int(v) for k, v in fr.items()} if isinstance(fr, dict) else fr
    res.case((n, m, kd))
    res.obs("wide-pipeline", n * m)
    if n_ != n + 1 or got != want:
        res.viol("plugins", f"{n} directives through {m} {kd} plugins: (provenance, synthetic span, tags) are {got}, and should be {want}")


# ---------------------------------------------------------------- show

class Unsortable(Exception):
    """what has no order to be shown in"""


def sort_key(x):
    if x is None:
        return (0,)
    if isinstance(x, bool):
        return ("bool", x)
    if isnum(x):
        return ("num", x)
    if isinstance(x, Kw):
        n, _, l = str(x).partition("/")
        return ("kw",) + ((1, utf16(n), utf16(l)) if l else (0, b"", utf16(n)))
    if isinstance(x, Date):
        return ("date", str(x))
    if type(x) is str:
        return ("str", utf16(x))
    raise Unsortable


def in_order(xs):
    xs = list(xs)
    if len(xs) < 2:
        return xs
    ks = [sort_key(x) for x in xs]
    if len({k[0] for k in ks if k[0] != 0}) > 1:
        raise Unsortable
    return [x for _, x in sorted(zip(ks, xs), key=lambda t: (t[0][0] != 0, t[0]))]


def number_text(x):
    return x.text if isinstance(x, Dec) else str(x)


ROW = lambda cs, g: {"row": [cs, g]}
LEFT = lambda s: {"aligned": [s, "left"]}


def cell(x):
    """the cell a value is shown as"""
    if x is None:
        return "empty"
    if isinstance(x, dict):
        t = x.get(K("cell/type"))
        g = lambda k: cell(x.get(K(k)))
        if t is None:
            return {"stack": [ROW([cell(k), cell(x[k])], "  ") for k in in_order(x)]}
        if t == "position":
            units = ROW([g("units"), g("cur")], " ")
            c = x.get(K("cost"))
            if c is None:
                return ROW([units], "  ")
            return ROW([units, ROW([cell(c.get(K("date"))), cell(c.get(K("cur"))), cell(c.get(K("per-unit"))), cell(c.get(K("label"))), cell("*" if c.get(K("merge")) else None)], " ")], "  ")
        if t == "journal/entry":
            return ROW([g(k) for k in ("date", "acc", "payee", "narration", "flag", "units", "cur", "bal")], "  ")
        if t == "rollup/entry":
            # a column per depth: the total at that of the account, its own at the greatest
            cols = {}
            if K("total") in x:
                cols[int(x[K("total")][1])] = cell(x[K("total")][0])
            n = len(cols) and max(cols) + 1
            if K("item") in x:
                cols[max(n, int(x[K("item")][1]))] = cell(x[K("item")][0])
            n = len(cols) and max(cols) + 1
            return ROW([cols.get(i, "empty") for i in range(n)], "  ")
        raise Unsortable
    if isinstance(x, (list, tuple)) and not isinstance(x, str):
        return "empty" if not x else cell(x[0]) if len(x) == 1 else {"stack": [cell(y) for y in x]}
    if isinstance(x, frozenset):
        return cell(in_order(x))
    if isinstance(x, bool):
        return LEFT(str(x).lower())
    if isnum(x):
        s = number_text(x)
        dp = s.find(".") if "." in s else s.find("/") if "/" in s else len(s)
        return {"anchored": [s, dp - 1]}
    if isinstance(x, Kw):
        return LEFT(":" + x)
    if isinstance(x, Other):
        return LEFT("?")
    return LEFT(str(x))


def plain_texts(c):
    if isinstance(c, str):
        return True
    (k, v), = c.items()
    if k in ("aligned", "anchored"):
        return all(" " <= ch <= "~" or "\u00c0" <= ch <= "\u024f" or "\u4e00" <= ch <= "\u9fff" for ch in v[0])
    return all(map(plain_texts, v[0] if k == "row" else v))


def showable(rng, depth=0):
    k = rng.randrange(14 if depth < 3 else 9)
    if k == 0:
        return None
    if k == 1:
        return rng.random() < 0.5
    if k in (2, 3):
        return Dec(str(Decimal(rng.randrange(-10 ** 6, 10 ** 7)).scaleb(-rng.randrange(0, 7))))
    if k == 4:
        return rng.choice([0, 7, -3, 123456789012345678901234567890, rng.randrange(10 ** 5)])
    if k == 5:
        return Kw(rng.choice(["a", "strict", "fifo", "ns/b", "z"]))
    if k == 6:
        return Date("%04d-%02d-%02d" % (rng.randrange(1900, 2100), rng.randrange(1, 13), rng.randrange(1, 29)))
    if k in (7, 8):
        return rng.choice(["", "x", "Groceries", "Assets:Bank", "東京", "Café del Mar", "a long line of text", " lead"])
    n = rng.choice([0, 1, 2, 3, 5])
    if k in (9, 10):
        one = rng.random() < 0.5 and showable(rng, depth + 1)
        return [showable(rng, depth + 1) for _ in range(n)] if one is False else [vary(rng, one) for _ in range(n)]
    if k == 11:
        return frozenset(rng.sample(["x", "y", "Zed", "a b", "東京", "ab"], n)) if rng.random() < 0.5 else frozenset(rng.sample(range(-5, 20), n))
    keys = rng.choice([["Assets:A", "Assets:B:C", "Expenses", "Income:X", "a"], [Kw(x) for x in ("date", "acc", "cur", "units", "x/y")], list(range(-2, 4)), [Date("2020-01-01"), Date("2021-02-03"), Date("1999-12-31"), Date("2020-01-02"), Date("2020-10-01")]])
    return {q: showable(rng, depth + 1) for q in rng.sample(keys, min(n, len(keys)))}


def vary(rng, x):
    """another of the kind"""
    if isinstance(x, bool) or x is None:
        return x
    if isnum(x):
        return Dec(str(Decimal(rng.randrange(-10 ** 5, 10 ** 6)).scaleb(-rng.randrange(0, 5))))
    if isinstance(x, list):
        return [vary(rng, y) for y in x]
    if isinstance(x, dict):
        return {k: vary(rng, v) for k, v in x.items()}
    if type(x) is str:
        return rng.choice(["", "x", "Groceries", "Assets:Bank", "東京", "xyz"])
    return x


def kind_show(ctx, rng, res):
    b = books(ctx, rng, res, rng.choice([P(plainstr=1, n=[4, 10, 16]), P(plainstr=1, lots=3.0, simple=0.4, n=[10, 18], preopen=0.9), P(plainstr=1, n=[3, 6, 12], simple=0.5, big=0.3)]))
    if b is None:
        return
    F = Filters(rng, b.postings())
    exprs = []
    for _ in range(3):
        t, _f = F.some(rng.choice([0, 0, 1]))
        exprs.append(rng.choice([f"(journal {t})", f"(inventory {t})", f"(rollup (inventory {t}))", f"(balances {t})", f"(income-statement {t})", "*registry*", "(set (keep :payee (journal)))", f"(map :acc (journal {t}))",
                                 f"(into {{}} (map (juxt :acc :units) (journal {t})))", f"(first (journal {t}))", f"(mapv (juxt :date :units :cur) (journal {t}))", f"(vals (inventory {t}))", f"(frequencies (map :acc (journal {t})))"]))
    for _ in range(5):
        x = showable(rng)
        exprs.append(f"(limabean.adapter.edn/read-string {edn(item_edn(x))})")
    exprs.append(rng.choice(["inc", "'sym", "\\a", "[\\a \\b]", "(list 1 20.5M)", "(map inc [1 10 100])", "[1/3 10 2.5M]", "#{}", "()", "(range 3)", "[nil nil]", "[[] 1]", "(java.util.Date. 0)", "#\"re\"", "[:a \"b\" nil]", "{:a {:b [1 2]}}"]))
    a = ask(ctx, res, b, [y for e in exprs for y in (e, f"(show {e})")])
    if a is None:
        return
    special = {"inc": Other("?"), "'sym": Other("?"), "\\a": "a", "[\\a \\b]": ["a", "b"], "[1/3 10 2.5M]": [Half("1/3"), 10, Dec("2.5")], "(java.util.Date. 0)": Other("?"), "#\"re\"": Other("?")}
    for e, v, r in zip(exprs, a.results[::2], a.results[1::2]):
        if v.thrown:
            res.inconclusive += 1
            continue
        x = special.get(e, v.value)
        try:
            c = cell(x)
            if not plain_texts(c):
                res.inconclusive += 1
                continue
            want = T.drawn(c) + "\n"
        except (T.Unclear, Unsortable):
            res.inconclusive += 1
            continue
        res.case((e.split()[0][:20], T.shape(c), want.count("\n")), want.strip() != "")
        res.obs("shown")
        res.obs("shown-" + (re.match(r"\(?([^\s()]*)", e).group(1) if e[0] in "(*" else "literal"))
        res.obs("shown-lines", want.count("\n"))
        if r.thrown or r.out != want or r.value != "ok":
            res.viol("show", f"{e}, which is {short(x, 300)}: {short(r.thrown) if r.thrown else r.out!r} instead of {want!r}")
            return
    if res.sample is None:
        res.sample = {"expression": e, "shown": r.out[:400]}


class Half(Decimal):
    """a ratio"""
    def __new__(cls, s):
        self = Decimal.__new__(cls, 0)
        self.text = s
        return self


Half.__str__ = lambda self: self.text


# ---------------------------------------------------------------- one pod at a time

def kind_lifecycle(ctx, rng, res):
    """loading again and again: the pod of the last beanfile is the only one running, and what is there is of that beanfile"""
    from . import source_checks as S
    ps = []
    for i in range(rng.choice([2, 3, 5])):
        k = rng.choice(["good", "good", "good", "refused", "unparsed", "missing", "unreadable", "plugin", "unresolved", "again"])
        if k in ("good", "refused", "plugin", "unresolved"):
            L = ledger(rng, P(n=[2, 5], meta=0, err=0.8 if k == "refused" else 0), booked=k != "refused")
            if L is None:
                res.inconclusive += 1
                return
            t = {"plugin": 'plugin "lb.p1" "{:raw {0 [[:throw \\"no\\"]]}}"\n', "unresolved": 'plugin "lb.neither"\n'}.get(k, "") + L.text
            ps.append((k, ctx.write(f"l{i}.beancount", t)))
        elif k == "unparsed":
            ps.append((k, ctx.write(f"l{i}.beancount", rng.choice(S.BADLINES) + "\n")))
        elif k == "missing":
            ps.append((k, ctx.path(f"no-such-{i}.beancount")))
        elif k == "unreadable":
            ps.append((k, ctx.write(f"l{i}.beancount", b"2020-01-01 note Assets:A \"\xff\xfe\"\n")))
        elif ps:
            ps.append(rng.choice(ps))
    probe = ["(some? (:pod *beans*))", "(:path *beans*)", "(if (:pod *beans*) (limabean.adapter.pod/status (:pod *beans*)) {})", "(count (:ok (limabean.adapter.pod/directives (:pod *beans*))))",
             "(do (def former (:process (:pod *beans*))) (= [(or *directives* []) (or *options* {}) *registry*] [(or (:directives *beans*) []) (or (:options *beans*) {}) (:registry *beans*)]))",
             "(:error *beans*)"]
    res.case(tuple(k for k, _ in ps))
    first = True
    for n, (k, path) in enumerate(ps):
        a = clj.run(ctx, res, path, ["(when-let [p (resolve 'former)] (when @p (.isAlive @p)))"] + probe, keep=True)
        if a is None:
            return
        seq = " ".join(x for x, _ in ps[:n + 1])
        fails = k in ("missing", "unreadable")
        if not first and a.results[0].value not in (None, False) or a.live != (0 if fails else 1):
            res.viol("pods", f"after {seq}: {a.live} pods running, the former {'is' if a.results[0].value else 'is not'} among them")
            clj.drop()
            return
        first = False
        res.obs("reload-" + k)
        if bool(a.loaded.thrown) != fails:
            res.viol("load", f"loading after {seq}: {short(a.loaded.thrown)}")
            break
        some, p, status, _count, consistent, err = [r.value for r in a.results[1:]]
        if fails:
            if some or consistent is not True:
                res.viol("reload", f"after {seq}, something is left of what was loaded before")
                break
            u = [t.get(Kw("data"), {}).get(Kw("user-error")) for t in a.loaded.thrown if isinstance(t.get(Kw("data")), dict)]
            if not u or not u[0]:
                res.viol("reload", f"{seq}: no reason is given: {short(a.loaded.thrown)}")
                break
        elif some is not True or p != path or status != {} or consistent is not True or (err is None) != (k == "good"):
            res.viol("reload", f"after {seq}: path {p}, status {short(status)}, error {short(err)}")
            break
    a = clj.run(ctx, res, None, ["(def former nil)"])
    if res.viols:
        clj.drop()
    if res.sample is None:
        res.sample = {"loaded": [k for k, _ in ps]}


# ---------------------------------------------------------------- auto_accounts

def kind_auto(ctx, rng, res):
    """auto_accounts opens each account a transaction uses which is not open yet, on that date, just before it, and does nothing else"""
    name = "beancount.plugins.auto_accounts"
    if rng.random() < 0.6:
        L = ledger(rng, rng.choice([P(n=[4, 8, 14], lifecycle=0), EVERYTHING]))
        if L is None:
            res.inconclusive += 1
            return
        text = L.text
    else:
        text = W.raw_ledger(rng, n=rng.choice([2, 6, 15]))[1]
    run = ctx.serve(ctx.write("whole.beancount", text), [req("parser.directives", 1)])
    if not res.served(run):
        return
    if "result" not in run.responses()[0]:
        res.inconclusive += 1
        return
    b = text.encode()
    for d in sorted(run.responses()[0]["result"]["directives"], key=lambda d: -int(d["span"][1])):
        if d["dct"] == "open" and rng.random() < 0.6:
            s, e = int(d["span"][1]), int(d["span"][2])
            b = b[:s] + b"\n" + b[e:]
    others = rng.choice([[], [], ["lb.p1"]])
    plugs = others + [name] if rng.random() < 0.5 else [name] + others
    b = "".join(f"plugin {gen.esc(p)}\n" for p in plugs).encode() + b
    path = ctx.write("l.beancount", b)
    res.files["ledger"] = b.decode(errors="replace")
    run = ctx.serve(path, [req("parser.directives", 1)])
    if not res.served(run):
        return
    if "result" not in run.responses()[0]:
        res.inconclusive += 1
        return
    raw = as_clj(run.responses()[0]["result"]["directives"])
    want, opened, added = [], set(), 0
    for d in raw:
        if d[K("dct")] == "open":
            opened.add(d[K("acc")])
        elif d[K("dct")] == "txn":
            new = {p[K("acc")] for p in d.get(K("postings")) or ()} - opened
            for acc in sorted(new, key=utf16):
                want.append({K("dct"): Kw("open"), K("date"): d[K("date")], K("acc"): acc, K("metadata"): {K("auto"): None}, K("provenance"): [name]})
                added += 1
            opened |= new
        want.append(d)
    a = clj.run(ctx, res, path, ["(:raw-xf-directives *beans*)", "(:error *beans*)", "(count *directives*)"])
    if a is None:
        return
    res.case((added, len(raw), tuple(plugs), len(b)), added > 0)
    res.obs("auto-opened", added)
    if a.loaded.thrown or a.results[0].thrown:
        res.viol("auto", f"{short(a.loaded.thrown or a.results[0].thrown)}")
        return
    if not judge_xf(want, a.results[0].value, ":raw-xf-directives", res):
        return
    run = ctx.serve(path, [req("book", 1, params=wire(a.results[0].value))])
    if b"rust_decimal" in run.err:
        res.inconclusive += 1
        return
    if not res.served(run):
        return
    ok = "result" in run.responses()[0]
    res.obs("auto-booked", ok)
    err = a.results[1].value
    if (err is None) != ok or ok and a.results[2].value != len(run.responses()[0]["result"]["directives"]):
        res.viol("auto", f"what is made of it {'books' if ok else 'is refused'}; error {short(err)}, {a.results[2].value} directives")
    if res.sample is None:
        res.sample = {"ledger": b.decode(errors="replace")[:600], "opened": added}


# --- the project's own cases

GOLDEN = {
    "inventory": ("inventory", "(show (inventory))", None),
    "journal": ("journal", "(show (journal))", None),
    "rollup": ("rollup", "(show (rollup (inventory)))", None),
    "printed": ("directives.fyi.beancount", "(do (print *directives*) nil)", None),
    "printed-raw-xf": ("raw-xf-directives.fyi.beancount", "(do (print (:raw-xf-directives *beans*)) nil)", None),
    "directives": ("directives.edn", None, "*directives*"),
    "raw-xf": ("raw-xf-directives.edn", None, "(:raw-xf-directives *beans*)"),
    "error": ("error.edn", None, "(:error *beans*)"),
}


def tagsort(s):
    """tags and links come in any order"""
    return "\n".join(re.sub(r"(?: [#^][^\s]+)+$", lambda m: " " + " ".join(sorted(m.group().split())), x) for x in s.split("\n"))


def kind_golden(*whats):
    """what the project itself recorded, running under Clojure, of its own test cases"""
    def kind(ctx, rng, res):
        base = os.path.join(core.REPO, "test-cases")
        for d in sorted(os.listdir(base)) if os.path.isdir(base) else ():
            if not d.endswith(".golden"):
                continue
            for what in whats:
                name, expr, form = GOLDEN[what]
                f = os.path.join(base, d, name)
                if not os.path.exists(f):
                    continue
                want = open(f, encoding="utf-8").read()
                if form is not None:
                    expr = "(= (limabean.adapter.edn/read-string (slurp %s)) %s)" % (clj.edn(f), form)
                a = clj.run(ctx, res, os.path.join(base, d[:-7] + ".beancount"), [expr])
                if a is None:
                    return
                res.case((d, what), True)
                res.obs("golden")
                r = a.results[0]
                if form is None and what.startswith("printed"):
                    want, r.out = tagsort(want), tagsort(r.out)
                if r.thrown or (r.value is not True if form is not None else r.out != want):
                    res.viol("golden", "%s %s: recorded %s; now %s %s" % (d, what, short(want), short(r.thrown or (r.out if form is None else r.value)), short(a.loaded.err)))
    return kind
