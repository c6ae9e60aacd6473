"""Reference model of the booking service: what a list of directives must book to.

Works on directives in wire shape (dicts, numbers as Decimal), independently of the
implementation.  Where the specification leaves the outcome open (the order in which the
currency groups of one transaction are considered), the model returns the set of admissible
outcomes, or raises Uncertain if later state would depend on the choice."""
from decimal import Decimal
from itertools import permutations

from .dec import D, ZERO, Overflow, near

SUPPORTED = {"strict", "strict-with-size", "none", "fifo", "lifo", "hifo"}


class Uncertain(Exception):
    """the model declines to predict; the caller must not judge"""


class KnownDefect(Exception):
    """the step runs into a recorded dependency defect; later state is not predictable"""


class BookErr(Exception):
    def __init__(self, reasons):
        self.reasons = reasons if isinstance(reasons, (set, frozenset)) else {reasons}


def num(x):
    return None if x is None else D.of(x)


class Cost:
    __slots__ = ("date", "per", "total", "cur", "label", "merge")

    def __init__(self, date, per, total, cur, label, merge):
        self.date, self.per, self.total, self.cur, self.label, self.merge = date, per, total, cur, label, merge

    def key(self):
        return (self.date, self.cur, self.per, (self.label is not None, self.label or ""), self.merge)

    def __repr__(self):
        return "{%s %s %s %s}" % (self.date, self.per, self.cur, self.label)


def ckey_cmp(a, b):
    ka, kb = a.key(), b.key()
    for x, y in zip(ka, kb):
        if x == y:
            continue
        return -1 if x < y else 1
    return 0


class Pos:
    __slots__ = ("cur", "units", "cost")

    def __init__(self, cur, units, cost=None):
        self.cur, self.units, self.cost = cur, units, cost

    def copy(self):
        return Pos(self.cur, self.units, self.cost)

    def __repr__(self):
        return f"{self.units} {self.cur} {self.cost or ''}"


class Positions(list):
    def copy(self):
        return Positions(p.copy() for p in self)

    def accumulate(self, units, cur, cost, method):
        i = 0
        for i, p in enumerate(self):
            if p.cur < cur:
                continue
            if p.cur > cur:
                break
            if cost is None:
                if p.cost is None:
                    p.units = p.units + units
                    return
                break
            if p.cost is None:
                continue
            if method == "none":
                continue
            c = ckey_cmp(p.cost, cost)
            if c == 0:
                p.units = p.units + units
                return
            if c > 0:
                break
        else:
            i = len(self)
        self.insert(i, Pos(cur, units, cost))

    def total(self, cur):
        t = ZERO
        for p in self:
            if p.cur == cur:
                t = t + p.units
        return t


class Tol:
    def __init__(self, opts):
        self.default = {k: D.of(v) for k, v in (opts.get("inferred-tolerance-default") or {}).items()}
        f = opts.get("inferred-tolerance-default-fallback")
        self.fallback = num(f)
        m = opts.get("inferred-tolerance-multiplier")
        self.mult = num(m) if m is not None else None

    def multiplier(self):
        return self.mult if self.mult is not None else D(5, 1)

    def residual(self, values, cur):
        s = ZERO
        minscale = None
        for v in values:
            s = s + v
            if v.s > 0 and (minscale is None or v.s < minscale):
                minscale = v.s
        if minscale is not None:
            return s if abs(s) >= D(1, minscale) * self.multiplier() else None
        t = self.default.get(cur, self.fallback)
        if t is not None:
            return s if abs(s) > t else None
        return s if s != ZERO else None


def sane(us, cs):
    return cs if us == 0 else us


class Ann:
    def __init__(self, idx, p):
        self.idx, self.p = idx, p
        self.acc = p["acc"]
        self.units = num(p.get("units"))
        self.cur = p.get("cur")
        self.cost = p.get("cost-spec")
        self.price = p.get("price-spec")
        cc = self.cost.get("cur") if self.cost is not None else None
        pc = self.price.get("cur") if self.price is not None else None
        self.ccur = cc or pc
        self.pcur = pc or cc

    def copy(self):
        a = Ann.__new__(Ann)
        a.__dict__.update(self.__dict__)
        return a

    def bucket(self):
        b = self.ccur or self.pcur
        if b is None and self.cost is None and self.price is None:
            b = self.cur
        return b

    def weight(self):
        if self.cost is not None:
            spec = self.cost
        elif self.price is not None:
            spec = self.price
        else:
            return self.units
        t, p = num(spec.get("total")), num(spec.get("per-unit"))
        if t is not None:
            return t
        if p is not None and self.units is not None:
            return (p * self.units).rescaled(sane(self.units.s, p.s))
        return None


class Booked:
    """an interpolated posting"""

    def __init__(self, idx, acc, units, cur, costs=None, price=None):
        self.idx, self.acc, self.units, self.cur, self.costs, self.price = idx, acc, units, cur, costs, price
        self.done = False

    def weight(self):
        t = ZERO
        for (u, c) in self.costs:
            t = t + (u * c.per).rescaled(sane(u.s, c.per.s))
        return t


def perr(idx, msg):
    return BookErr(f"{msg} on posting {idx}")


def book_txn(date, postings, tol, inv, method):
    """returns (list of Booked aligned with postings, updated {acc: Positions})
    or raises BookErr with the admissible reasons"""
    anns = [Ann(i, p) for i, p in enumerate(postings)]
    groups = {}
    autos = {}
    unknown = []
    for a in anns:
        b = a.bucket()
        if a.units is None and a.cur is None:
            if b in autos:
                raise perr(a.idx, "ambiguous auto-post")
            autos[b] = a
        elif b is not None:
            groups.setdefault(b, []).append(a)
        else:
            unknown.append(a)
    if len(unknown) == 1 and len(groups) == 1:
        u = unknown.pop().copy()
        b = next(iter(groups))
        if u.cur is None and u.cost is None and u.price is None:
            u.cur = b
        u.ccur = u.ccur or b
        u.pcur = u.pcur or b
        groups[b].append(u)
    for u in unknown:
        pos = inv(u.acc)

        def acc_cur():
            if pos is None:
                return None
            cs = {p.cur for p in pos}
            return next(iter(cs)) if len(cs) == 1 else None

        def lot_cur():
            if pos is None:
                return None
            cs = {p.cost.cur for p in pos if p.cost is not None}
            return next(iter(cs)) if len(cs) == 1 else None
        b = None
        if u.cost is not None and u.ccur is None:
            b = lot_cur()
        if b is None:
            b = acc_cur()
        if b is None:
            raise perr(u.idx, "cannot infer anything")
        groups.setdefault(b, []).append(u)
    if None in autos:
        a = autos.pop(None)
        if autos:
            raise perr(a.idx, "ambiguous auto-post")
        if not groups:
            raise BookErr("can't determine currency for balancing transaction")
        if len(groups) == 1:
            groups[next(iter(groups))].append(a)
        else:
            if len(groups) > 5:
                raise Uncertain("many groups")
            raise BookErr({"can't have auto-post with multiple currencies " + ",".join(p)
                           for p in permutations(groups)})
    else:
        for b, a in autos.items():
            groups.setdefault(b, []).append(a)

    orders = list(permutations(groups)) if len(groups) <= 4 else None
    if orders is None:
        # independent unless two groups touch the same account, in other than currencies of their own
        gs = list(groups)
        accs = [a.acc for g in groups.values() for a in g]
        orders = [tuple(gs[k:] + gs[:k]) for k in range(len(gs))] + [tuple(reversed(gs))]
        plain = all(a.cost is None and a.price is None and (a.cur is None or a.cur == c) for c, g in groups.items() for a in g)
        if not plain and len(set(accs)) != len(accs):
            raise Uncertain("many interacting groups")
    outs = []
    for o in orders:
        try:
            outs.append(("ok", _book_groups(date, [(c, groups[c]) for c in o], tol, inv, method, len(anns))))
        except BookErr as e:
            outs.append(("err", e.reasons))
    kinds = {k for k, _ in outs}
    if kinds == {"err"}:
        rs = set()
        for _, r in outs:
            rs |= r
        raise BookErr(rs)
    if len(kinds) > 1:
        raise Uncertain("outcome depends on group order")
    sigs = {repr([(b.idx, b.acc, str(b.units), b.cur, [(str(u), c.key()) for u, c in (b.costs or [])]) for b in r[0]])
            + repr(sorted((a, repr(p)) for a, p in r[1].items())) for _, r in outs}
    if len(sigs) > 1:
        raise Uncertain("booking depends on group order")
    return outs[0][1]


def _book_groups(date, groups, tol, inv, method, n):
    result = [None] * n
    updated = {}
    residuals = {}

    def look(acc):
        return updated[acc] if acc in updated else inv(acc)

    for cur, anns in groups:
        local = {}
        costed = []
        for a in anns:
            prev = local[a.acc] if a.acc in local else look(a.acc)
            item, newpos = _reduce(a, tol, method(a.acc), prev)
            costed.append(item)
            if newpos is not None:
                local[a.acc] = newpos
        updated.update(local)
        # interpolate
        ws = [c.weight() for c in costed]
        res = tol.residual([w for w in ws if w is not None], cur)
        unk = [i for i, w in enumerate(ws) if w is None]
        if len(unk) == 1:
            ws[unk[0]] = -(res if res is not None else ZERO)
            res = None
        elif len(unk) > 1:
            raise BookErr("too many missing numbers for interpolation")
        outs = []
        for c, w in zip(costed, ws):
            if isinstance(c, Booked):
                outs.append(c)
            else:
                outs.append(_interp(date, cur, w, c))
        if res is not None:
            if res.m == 0:
                raise KnownDefect("an exact balance, of amounts with decimal places, where no tolerance is allowed")
            residuals[cur] = res
        elif any(b.done and any(c.cur != cur for _, c in b.costs) for b in outs):
            raise KnownDefect("a reduction weighed in a currency other than that of its lots")
        aug = {}
        for b in outs:
            if b.done:
                continue
            if b.acc not in aug:
                prev = look(b.acc)
                aug[b.acc] = prev.copy() if prev is not None else Positions()
            if b.costs is not None:
                for (_, c) in b.costs:
                    aug[b.acc].accumulate(b.units, b.cur, c, method(b.acc))
            else:
                aug[b.acc].accumulate(b.units, b.cur, None, method(b.acc))
        updated.update(aug)
        for b in outs:
            result[b.idx] = b
    if residuals:
        raise BookErr("unbalanced transaction with residual " +
                      ", ".join(f"{-residuals[c]} {c}" for c in sorted(residuals)))
    return result, updated


def _interp(date, cur, w, a):
    if a.cost is None and a.price is None:
        return Booked(a.idx, a.acc, w, cur)
    spec = a.cost if a.cost is not None else a.price
    per, total = num(spec.get("per-unit")), num(spec.get("total"))
    units, conv = a.units, None
    have_units = True
    if units is not None and per is not None:
        conv = (per, total if total is not None else units * per)
    elif units is None and per is not None:
        u = w.div(per)
        if u is None:
            have_units = False
        else:
            units = u.rescaled(w.s)
            conv = (per, total if total is not None else units * per)
    elif units is not None:
        t = total if total is not None else w
        p = t.div(units)
        conv = (abs(p), t) if p is not None else None
    else:
        have_units = False
    if not have_units:
        raise perr(a.idx, "cannot infer units" if a.cur is not None else "cannot infer anything")
    if a.cur is None:
        raise perr(a.idx, "cannot infer currency")
    opposite = conv is not None and conv[1].sign() * units.sign() < 0 and conv[0].sign() > 0
    if a.cost is not None:
        if a.ccur is not None and conv is not None:
            if opposite:
                raise KnownDefect("a cost total of the opposite sign to the units")
            c = Cost(a.cost.get("date") or date, conv[0], conv[1], a.ccur, a.cost.get("label"),
                     bool(a.cost.get("merge")))
            return Booked(a.idx, a.acc, units, a.cur, [(units, c)])
        if conv is not None:
            raise perr(a.idx, "cannot infer currency")
        if a.ccur is not None:
            raise perr(a.idx, "cannot infer units")
        raise perr(a.idx, "cannot infer anything")
    if conv is not None and a.pcur is not None:
        if opposite:
            raise KnownDefect("a price total of the opposite sign to the units")
        return Booked(a.idx, a.acc, units, a.cur, None, (conv[0], conv[1], a.pcur))
    if a.pcur is not None:
        raise perr(a.idx, "cannot infer price per-unit")
    if conv is not None:
        raise perr(a.idx, "cannot infer price currency")
    raise perr(a.idx, "cannot infer price")


def _matches(cost, spec):
    if spec.get("date") is not None and spec["date"] != cost.date:
        return False
    if spec.get("cur") is not None and spec["cur"] != cost.cur:
        return False
    if spec.get("per-unit") is not None and D.of(spec["per-unit"]) != cost.per:
        if cost.per.approx and near(D.of(spec["per-unit"]), cost.per):
            raise Uncertain("match against an inexact cost")
        return False
    if spec.get("label") is not None and spec["label"] != cost.label:
        return False
    return True


def _reduce(a, tol, method, prev):
    if method == "none" or a.cur is None or a.units is None or a.cost is None or prev is None:
        return a, None
    sg = a.units.sign()
    if not (sg != 0 and any(p.cur == a.cur and p.units.sign() not in (0, sg) for p in prev)):
        if sg < 0 and not any(p.cur == a.cur for p in prev):
            raise perr(a.idx, "no position matches")
        return a, None
    m = [i for i, p in enumerate(prev) if p.cur == a.cur and p.cost is not None and _matches(p.cost, a.cost)]
    if not m:
        raise perr(a.idx, "no position matches")
    if len(m) == 1:
        return _reduce_one(a, prev, m[0])
    left = tol.residual([prev[i].units for i in m] + [a.units], a.cur)
    if left is not None and left.m == 0:
        raise KnownDefect("all of what matches sold exactly, in decimal places, where no tolerance is allowed")
    if left is None:
        cc = _unique_cc(a, prev, m)
        b = Booked(a.idx, a.acc, a.units, a.cur, [(-prev[i].units, prev[i].cost) for i in m])
        b.done = True
        ms = set(m)
        del cc
        return b, Positions(p.copy() for i, p in enumerate(prev) if i not in ms)
    if method in ("fifo", "lifo", "hifo"):
        t = ZERO
        for i in m:
            t = t + prev[i].units
        if not a.units <= t:
            raise perr(a.idx, "not enough lots to reduce")
        _unique_cc(a, prev, m)
        if method == "lifo":
            m = m[::-1]
        elif method == "hifo":
            import functools
            m = sorted(m, key=functools.cmp_to_key(lambda i, j: prev[j].cost.per.cmp(prev[i].cost.per)))
        if any(p.cur != a.cur for p in prev):
            raise KnownDefect("partial multi-lot reduction in an account holding other commodities")
        rem = a.units
        us = [p.units for p in prev]
        adj = []
        for i in m:
            use = rem if abs(rem) <= abs(us[i]) else -us[i]
            us[i] = us[i] + use
            rem = rem - use
            adj.append((use, prev[i].cost))
            if rem == ZERO:
                break
        if rem != ZERO:
            raise perr(a.idx, "not enough lots to reduce")
        b = Booked(a.idx, a.acc, a.units, a.cur, adj)
        b.done = True
        # NB every surviving position keeps its own currency
        return b, Positions(Pos(p.cur, u, p.cost) for p, u in zip(prev, us) if u != ZERO)
    if method == "strict-with-size":
        s = [i for i in m if prev[i].units == -a.units]
        if s:
            s.sort(key=lambda i: prev[i].cost.date)
            return _reduce_one(a, prev, s[0])
    raise perr(a.idx, "ambiguous matches")


def _unique_cc(a, prev, m):
    cs = {prev[i].cost.cur for i in m}
    if len(cs) != 1:
        raise perr(a.idx, "multiple currencies in cost spec matches against inventory")
    return next(iter(cs))


def _reduce_one(a, prev, i):
    if abs(a.units) > abs(prev[i].units):
        raise perr(a.idx, "not enough lots to reduce")
    b = Booked(a.idx, a.acc, a.units, a.cur, [(a.units, prev[i].cost)])
    b.done = True
    out = Positions()
    for j, p in enumerate(prev):
        p = p.copy()
        if j == i:
            p.units = p.units + a.units
            if p.units == ZERO:
                continue
        out.append(p)
    return b, out


def is_sub(base, cand):
    return cand == base or cand.startswith(base + ":")


class Acc:
    def __init__(self, curs, booking, opened):
        self.curs, self.booking, self.opened = curs, booking, opened
        self.pos = Positions()
        self.pad = None
        self.windows = {}


class Report:
    def __init__(self, reasons, idx, related=None, kind=None, detail=None):
        self.reasons = reasons if isinstance(reasons, (set, frozenset)) else {reasons}
        self.idx, self.related, self.kind, self.detail = tuple(idx), related, kind, detail

    def __repr__(self):
        return f"{list(self.idx)} {sorted(self.reasons)} related={self.related}"


class Fail(Exception):
    def __init__(self, report):
        self.report = report


COMMON = ("tags", "links", "metadata")


class Ledger:
    """books a list of wire-shape directives"""

    def __init__(self, opts):
        self.tol = Tol(opts)
        bm = opts.get("booking-method")
        self.default = bm if bm in SUPPORTED else "strict"
        self.open = {}
        self.closed = {}
        self.accs = {}
        self.out = []
        self.errors = []
        self.stats = {}

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def run(self, directives):
        for i, d in enumerate(directives):
            try:
                self.one(i, d)
            except Fail as f:
                self.errors.append(f.report)
                self.stat("err:" + (f.report.kind or "?"))
        tail = []
        for name, a in self.accs.items():
            if a.pad is not None:
                tail.append(Report("unused, no balance directive", [a.pad[1]], kind="pad-unused"))
        tail.sort(key=lambda r: r.idx)
        self.errors += tail
        return self

    # --
    def emit(self, i, d, body, dct=None):
        o = {"idx": i, "date": d["date"]}
        for k in COMMON:
            if d.get(k) is not None:
                o[k] = d[k]
        o["dct"] = dct or d["dct"]
        o.update(body)
        self.out.append(o)
        return o

    def one(self, i, d):
        t = d["dct"]
        if t == "txn":
            self.txn(i, d)
        elif t == "open":
            self.do_open(i, d)
        elif t == "close":
            self.do_close(i, d)
        elif t == "pad":
            self.do_pad(i, d)
        elif t == "balance":
            self.do_balance(i, d)
        else:
            self.emit(i, d, {k: v for k, v in d.items() if k not in ("span", "date", "dct") + COMMON})
            self.stat("passthrough")

    def valid(self, acc, idx):
        if acc in self.open:
            return self.accs[acc]
        if acc in self.closed:
            raise Fail(Report("account was closed", idx, [(self.closed[acc],)], kind="acc-closed"))
        raise Fail(Report("account not open", idx, kind="acc-not-open"))

    def valid_cur(self, a, cur, idx):
        if a.curs and cur not in a.curs:
            raise Fail(Report("currency incompatible with account", idx, [(a.opened,)], kind="currency"))

    def do_open(self, i, d):
        acc = d["acc"]
        if acc in self.open:
            raise Fail(Report("account already opened", [i], [(self.open[acc],)], kind="double-open"))
        if acc in self.closed:
            raise Fail(Report("account was closed", [i], [(self.closed[acc],)], kind="reopen"))
        self.open[acc] = i
        b = d.get("booking") or self.default
        if b not in SUPPORTED:
            b = "strict"
        self.accs[acc] = Acc(set(d.get("currencies") or ()), b, i)
        self.stat("open")
        self.emit(i, d, {k: d[k] for k in ("acc", "currencies", "booking") if d.get(k) is not None})

    def do_close(self, i, d):
        acc = d["acc"]
        if acc not in self.open:
            raise Fail(Report("account not open", [i], kind="close-not-open"))
        del self.open[acc]
        self.closed[acc] = i
        self.stat("close")
        self.emit(i, d, {"acc": acc})

    def txn(self, i, d):
        ps = d["postings"]
        try:
            booked, updated = book_txn(
                d["date"], ps, self.tol,
                lambda a: self.accs[a].pos if a in self.accs else None,
                lambda a: self.accs[a].booking if a in self.accs else self.default)
        except BookErr as e:
            raise Fail(Report(e.reasons, [i], kind="booking"))
        except Overflow:
            raise Uncertain("overflow")
        for j, (b, p) in enumerate(zip(booked, ps)):
            a = self.valid(p["acc"], [i, j])
            self.valid_cur(a, b.cur, [i, j])
        out = []
        for j, (b, p) in enumerate(zip(booked, ps)):
            base = {"idx": j, "acc": p["acc"], "cur": b.cur}
            for k in ("flag",) + COMMON:
                if p.get(k) is not None:
                    base[k] = p[k]
            if b.costs is not None:
                if len(b.costs) > 1:
                    self.stat("multi-lot")
                if len(b.costs) > 8:
                    self.stat("many-lots")
                for (u, c) in b.costs:
                    o = dict(base)
                    o["units"] = u
                    co = {"date": c.date, "per-unit": c.per, "total": c.total, "cur": c.cur}
                    if c.label is not None:
                        co["label"] = c.label
                    if c.merge:
                        co["merge"] = True
                    o["cost"] = co
                    out.append(o)
                self.stat("reduction" if b.done else "lot-opened")
            else:
                o = dict(base)
                o["units"] = b.units
                if b.price is not None:
                    o["price"] = {"per-unit": b.price[0], "total": b.price[1], "cur": b.price[2]}
                    self.stat("price")
                out.append(o)
            if p.get("units") is None:
                self.stat("interpolated")
        for a, pos in updated.items():
            self.accs[a].pos = pos
        body = {"flag": d["flag"], "postings": out}
        for k in ("payee", "narration"):
            if d.get(k) is not None:
                body[k] = d[k]
        self.stat("txn")
        self.emit(i, d, body)

    def do_pad(self, i, d):
        a = self.valid(d["acc"], [i])
        self.valid(d["source"], [i])
        if is_sub(d["acc"], d["source"]):
            raise Fail(Report("pad source is the padded account or one of its subaccounts", [i], kind="pad-self"))
        if a.pad is not None:
            first = a.pad[1]
            a.pad = None
            raise Fail(Report("unused, second pad encountered", [first], [(i,)], kind="pad-second"))
        self.emit(i, d, {"acc": d["acc"], "source": d["source"]})
        t = self.emit(i, d, {"flag": "'P", "postings": []}, dct="txn")
        a.pad = (t, i, d["source"])
        self.stat("pad")

    def tolerance(self, d):
        t = d.get("tolerance")
        if t is not None:
            return D.of(t)
        u = D.of(d["units"])
        if u.s > 0:
            return D(1, u.s) * self.tol.multiplier() * D(2, 0)
        return ZERO

    def rollup(self, acc, cur):
        t = ZERO
        for n, a in sorted(self.accs.items()):
            if is_sub(acc, n):
                t = t + a.pos.total(cur)
        return t

    def do_balance(self, i, d):
        acc, cur, units = d["acc"], d["cur"], D.of(d["units"])
        a = self.valid(acc, [i])
        self.valid_cur(a, cur, [i])
        margin = units - self.rollup(acc, cur)
        bad = abs(margin) > self.tolerance(d)
        pad, a.pad = a.pad, None
        if bad and pad is not None:
            _, pidx, src = pad
            s = self.accs[src]
            if s.curs and cur not in s.curs:
                raise Fail(Report("currency incompatible with account", [pidx], [(s.opened,)], kind="pad-currency"))
        window = (a.windows.get(cur, 0), len(self.out))
        a.windows[cur] = len(self.out)
        body = {k: d[k] for k in ("acc", "units", "cur", "tolerance") if d.get(k) is not None}
        if not bad:
            self.stat("balance-ok")
            if margin != ZERO:
                self.stat("balance-within-tolerance")
            if pad is not None:
                self.errors.append(Report("unused, no balance adjustment required", [pad[1]], kind="pad-not-needed"))
                self.stat("err:pad-not-needed")
            self.emit(i, d, body)
            return
        if pad is None:
            a.pos.accumulate(margin, cur, None, "strict")
            self.errors.append(self.balance_report(i, acc, cur, margin, window))
            self.stat("err:balance")
            self.emit(i, d, body)
            return
        t, pidx, src = pad
        s = self.accs[src]
        t["postings"] = [
            {"flag": "'P", "acc": acc, "units": margin, "cur": cur},
            {"flag": "'P", "acc": src, "units": -margin, "cur": cur}]
        a.pos.accumulate(margin, cur, None, "strict")
        s.pos.accumulate(-margin, cur, None, "strict")
        self.stat("padded")
        self.emit(i, d, body)

    def balance_report(self, i, acc, cur, margin, window):
        rows = []
        total = ZERO
        lo, hi = window
        if lo < len(self.out):
            b = self.out[lo]
            if b["dct"] == "balance" and b["cur"] == cur and b["acc"] == acc:
                total = D.of(b["units"])
        names = set()
        for o in self.out[lo:hi]:
            if o["dct"] == "txn":
                for p in o["postings"]:
                    if is_sub(acc, p["acc"]) and p["cur"] == cur:
                        u = D.of(p["units"])
                        total = total + u
                        names.add(p["acc"])
                        rows.append((o["date"], p["acc"], u, total, o.get("payee", o.get("narration"))))
        toks = []
        for date, a, u, t, desc in rows:
            toks.append(date)
            if len(names) > 1:
                toks.append(a[len(acc):])
            toks += [str(u), str(t)]
            if desc is not None:
                toks.append(desc)
        self.stat("diag-rows", len(rows))
        return Report(f"accumulated {total}, error {margin} {cur}", [i], kind="balance",
                      detail=" ".join(" ".join(toks).split()))


def book(directives, opts):
    return Ledger(opts).run(directives)
