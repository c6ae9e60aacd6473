"""Ledger generator: directives in wire shape together with beanfile text.

Every number is an N (a Decimal that remembers how it is written in the beanfile), so the
expected wire value and the source text come from one object and the parser is never used
to produce its own oracle."""
import calendar
import copy
from decimal import Decimal
from .dec import D, ZERO, Overflow
from . import model


class N(Decimal):
    def __new__(cls, v, text=None):
        o = Decimal.__new__(cls, v)
        o.text = text if text is not None else format(Decimal(v), "f")
        return o

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def dn(d, text=None):
    return N(d.dec(), text)


def random_accounts(rng, n=10):
    """an account tree in which names are prefixes of one another with and without a separator"""
    parts = ["A", "Ab", "Abc", "ABC", "AB", "B", "B-1", "\u00c9", "X", "2020", "\u6771\u4eac", "Bank", "BankOfX"]
    out = []
    while len(out) < n:
        if out and rng.random() < 0.6:
            b = rng.choice(out)
            if rng.random() < 0.25:
                c = rng.choice([b + rng.choice(["x", "1", "-a", "\u00e9", "\u00c9"]), ":".join(b.split(":")[:-1] + [b.split(":")[-1].upper()])])
            else:
                c = b + ":" + rng.choice(parts)
        else:
            c = rng.choice(["Assets", "Liabilities", "Income", "Expenses", "Equity"]) + ":" + rng.choice(parts)
        if c not in out and c.count(":") < 7:
            out.append(c)
    return out


ACCOUNTS = ["Assets:Bank", "Assets:Bank:Current", "Assets:Bank:Current:Deep", "Assets:Banker", "Assets:Cash",
            "Assets:Inv", "Assets:Inv:Broker", "Liabilities:Card", "Income:Salary", "Income:Gains",
            "Expenses:Food", "Expenses:Food:Out", "Expenses:FOOD", "Equity:Opening", "Assets:\u00c9pargne", "Expenses:\u98df\u3079\u7269:X-1"]
# names which mean something to other programs, and nothing here
USUAL = ["Equity:Opening-Balances", "Equity:Opening-Balances", "Equity:Conversions:Current", "Equity:Earnings:Previous", "Equity:Rounding", "Equity:Transfers",
         "Expenses:Uncategorized", "Expenses:Fees", "Income:Unknown", "Income:PnL", "Assets:Receivable", "Assets:Unopened", "Liabilities:Payable"]
CASH = ["USD", "GBP", "NZD"]
# currencies which begin, end or hold one another
KIN = [["USD", "USDT", "US"], ["NZD", "NZ", "XNZD"], ["US", "USD", "XUSD"], ["GBP", "GBP.X", "GBP-1"], ["AAP", "AAPLE", "APL"]]
STOCK = ["AAPL", "GOOG", "VT.X-1"]
ODD = ["A'B", "X_1.Z", "/ES1"]
METHODS = ["strict", "strict-with-size", "none", "fifo", "lifo", "hifo", "average"]
METHOD_TEXT = {"strict": "STRICT", "strict-with-size": "STRICT_WITH_SIZE", "none": "NONE", "average": "AVERAGE",
               "fifo": "FIFO", "lifo": "LIFO", "hifo": "HIFO"}
FLAGS = ["*", "*", "*", "!", "&", "#", "?", "%"] * 5 + ["'" + c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"]
STRINGS = ["", "", " ", "\t", "\n", "Groceries", "caf\u00e9 \u6771\u4eac", "a \"quoted\" word", "back\\slash", "tab\there", "two\nlines", "\U0001f600",
           "semi ; colon", "x", "100%", "{curly} [square]", "Assets:Bank", "'single'", "2020-01-01", "\u00df", "\u007f",
           "trailing ", " leading", "a\u2028b", "null", "true", "\u0001ctl", "#nottag ^notlink"]
ALPHABETS = ["abc XYZ-09", "a\u00e9\u00df ", "\u6771\u4eac\u304b", "\U0001f600\U0001f468\u200d\u2764\ufe0f", "x\u0301o", "\u05d0\u05d1 \u202e\u0645", "\" \\\t;#^:{}",
             "\uff21\u00a0\u2028\u00ad", "\u001b[31m\u0007\r\n", "%s{}$`'<&>"]


def long_string(rng):
    """a string of any length up to a few hundred bytes, whose characters are of one, two, three and four bytes"""
    n = rng.choice([2, 7, 20, 39, 40, 41, 64, 80, 127, 130, 200])
    n = max(1, n + rng.randrange(-3, 4))
    if rng.random() < 0.1:
        n = rng.choice([255, 513, 1030, 1030])
    al = "".join(rng.sample(ALPHABETS, rng.randrange(1, 4)))
    t = "".join(rng.choice(al) for _ in range(n))
    return t.replace("\r", "") or "x"


TAGS = ["trip", "t-1", "a.b", "x/y", "UP", "t_2", "2020", "true", "null", "Trip", "up"]
LINKS = ["inv-1", "L.2", "a/b_c", "99", "INV-1", "l.2"]
KEYS = ["booking", "currencies", "category", "note", "balance", "open", "xKey-1", "date", "tags", "units", "span", "k_2", "id", "dct", "idx",
        "metadata", "string", "number", "acc", "payee", "kk", "a-b_c", "postings", "tolerance", "null", "true", "k" * 70, "aB9"]


class Gen:
    def __init__(self, rng, **prof):
        self.r = rng
        p = dict(n=14, err=0.25, meta=0.25, lots=1.0, conv=1.0, interp=1.0, balance=1.0, pad=0.6, passthrough=0.8,
                 lifecycle=0.5, junk=0.4, opts=True, exprs=0.2, simple=1.0, methods=None, big=0.02, many=0.08, longest=300, hoard=0.01, curs=0.3, badacc=None,
                 accounts=None, stock=None, cash=None, odd=None, preopen=0.65, date=None, pool=None)
        p.update(prof)
        if p["badacc"] is None:
            p["badacc"] = 0.08 * p["err"]
        self.p = p
        self.accs = p["accounts"] or ACCOUNTS
        if self.accs is ACCOUNTS and self.coin(0.5):
            self.accs = list(ACCOUNTS)
            for a in self.r.sample(USUAL, self.r.randrange(1, 4)):
                xs = [i for i, b in enumerate(self.accs) if b.split(":")[0] == a.split(":")[0]]
                self.accs[self.ch(xs)] = a
        if self.accs is not p["accounts"] and self.coin(0.25):
            # deep ones, and those of long names
            self.accs = list(self.accs)
            for _ in range(self.r.randrange(1, 3)):
                b = self.ch(["Assets:Cash", "Assets:Bank:Current", "Liabilities:Card", "Expenses:Food:Out", "Assets:Inv:Broker"])
                x = b + (":Of:One:Within:Another:Ever:Deeper"[:self.ch([18, 26, 31, 33])] if self.coin(0.6) else ":" + "Longname-" * self.r.randrange(3, 16) + "1")
                if x not in self.accs:
                    self.accs[self.r.randrange(len(self.accs))] = x
        self.stock = p["stock"] or STOCK
        self.cash = p["cash"] or (self.r.choice(KIN) if self.coin(0.15) else CASH)
        self.odd = p["odd"] or ODD
        self.ds = []
        self.opts = {}
        self.optlines = []
        k = self.r.random()
        self.date = list(p["date"] or ((1, 1, 1) if k < 0.03 else (999, 12, 20) if k < 0.045 else (1969, 12, 20) if k < 0.06 else (2019, 12, 20) if k < 0.2 else (1999, 2, 20) if k < 0.25 else (2020, 2, 20) if k < 0.35 else (2020, 1, 1)))
        self.stride = self.ch([[1, 1, 2, 9], [1, 1, 2, 9], [1, 29, 30, 31], [1, 7, 365, 366], [1]])
        # the last day there is, on which a ledger may end
        self.last = p["n"] * self.r.choice([0.3, 0.8]) if k > 0.96 else None
        self.rank = 0
        if p["opts"]:
            self.gen_opts()
        self.led = model.Ledger(self.opts)
        self.uncertain = 0
        self.seen_spec = []

    # ---- values
    def ch(self, xs):
        return xs[self.r.randrange(len(xs))]

    def coin(self, p=0.5):
        return self.r.random() < p

    def expr(self, d):
        """write the value d as an arithmetic expression, when that reproduces it exactly"""
        r = self.r
        k = r.randrange(6)
        s = d.s
        a = D(r.randrange(-999, 1000), s)
        try:
            if k == 0:
                b = d - a
                b = D(*_sc(b, s))
                if b.m < 0:
                    return f"({a} - {-b})" if a.m >= 0 else f"{a} - {-b}"
                return f"{a} + {b}"
            if k == 1:
                return f"({d})"
            if k == 2 and s == 0 and d.m % 2 == 0:
                return f"{D(d.m // 2, 0)}*2"
            if k == 3 and abs(d.m) < 10 ** 12:
                return f"{D(d.m * 4, s)} / 4"
            if k == 4:
                return f"-(-({d}))"
            if k == 5:
                b = D(*_sc(d - a, s))
                return f"(({a}) + 1*({b}))"
        except Overflow:
            pass
        return None

    def num(self, d, signless=False):
        d = D.of(d)
        if d.s > 28:
            d = d.rescaled(28)
        t = str(d)
        if d.m == 0:
            t = t.lstrip("-")
        if not signless and self.coin(self.p["exprs"]):
            e = self.expr(d)
            if e is not None:
                return N(d.dec(), e)
        if abs(d.m) >= 1000 * 10 ** d.s and self.coin(0.3):
            ip, _, fp = t.lstrip("-").partition(".")
            ip = "{:,}".format(int(ip))
            t = ("-" if d.m < 0 else "") + ip + ("." + fp if fp else "")
        if signless:
            assert d.m >= 0
        return N(d.dec(), t)

    def amt(self, lo=1, hi=99999, scales=(0, 1, 2, 2, 2, 3)):
        s = self.ch(scales)
        if self.coin(self.p["big"]):
            return D(self.r.randrange(1, 10 ** self.r.randrange(3, 15)), self.r.randrange(0, 9))
        return D(self.r.randrange(lo, hi), s)

    def string(self):
        if self.p.get("plainstr"):
            return self.ch(["Groceries", "caf\u00e9 \u6771\u4eac", "x", "shop", "", "a longer line of words", " leading", "100%", "{curly} [square]"])
        k = self.r.random()
        if k < 0.55:
            return self.ch(["Groceries", "caf\u00e9 \u6771\u4eac", "x", "shop"])
        return long_string(self.r) if k < 0.65 + self.p.get("long", 0) else self.ch(STRINGS)

    def accname(self):
        return self.ch(self.accs)

    def openacc(self, pred=None):
        xs = [a for a in self.accs if a in self.led.open and (pred is None or pred(a))]
        if not xs or self.coin(self.p["badacc"]):
            return self.accname()
        return self.ch(xs)

    def metavalue(self, nonnull=False):
        k = self.r.randrange(10)
        if k == 0:
            return {"string": self.string()}
        if k == 1:
            return {"cur": self.ch(self.cash + self.odd)}
        if k == 2:
            return {"acc": self.accname()}
        if k == 3:
            return {"tag": self.ch(TAGS)}
        if k == 4:
            return {"link": self.ch(LINKS)}
        if k == 5:
            return {"date": self.ch(["2020-02-29", "1999-12-31", "0001-01-01", "9999-12-31"])}
        if k == 6:
            return {"bool": self.coin()}
        if k in (7, 8) and self.coin(0.1):
            z = self.num(D(0, self.ch([0, 1, 2, 6])))
            return {"number": z} if k == 7 else {"units": z, "cur": self.ch(self.cash)}
        if k in (7, 8) and self.coin(0.2):
            z = self.num(D(self.r.randrange(-30, 31), self.ch([0, 0, 0, 1, 3])))
            return {"number": z} if k == 7 else {"units": z, "cur": self.ch(self.cash)}
        if k == 7:
            return {"number": self.num(self.amt() if self.coin() else -self.amt())}
        if k == 8:
            return {"units": self.num(self.amt() if self.coin() else -self.amt()), "cur": self.ch(self.cash)}
        return {"string": "v"} if nonnull else None

    def few(self, most):
        return self.r.randrange(1, 4) if self.coin(0.95) else self.r.randrange(1, most + 1)

    def common(self, d, posting=False):
        p = self.p["meta"]
        if self.coin(p):
            d["tags"] = sorted(self.r.sample(TAGS, self.few(len(TAGS))))
        if self.coin(p):
            d["links"] = sorted(self.r.sample(LINKS, self.r.randrange(1, 3)))
        if self.coin(p):
            d["metadata"] = {k: self.metavalue() for k in self.r.sample(KEYS, self.few(len(KEYS)))}
        return d

    def gen_opts(self):
        o, L = self.opts, self.optlines
        if self.coin(0.35):
            m = self.ch(METHODS)
            o["booking-method"] = m
            L.append(("booking_method", METHOD_TEXT[m]))
        if self.coin(0.35):
            v = self.ch(["0.5", "1", "0.25", "2", "1.10", "0"])
            o["inferred-tolerance-multiplier"] = Decimal(v)
            L.append(("inferred_tolerance_multiplier", v))
        if self.coin(0.3):
            t = {}
            for c in self.r.sample(self.cash + self.stock[:1], self.r.randrange(1, 3)):
                v = self.ch(["0.005", "0.5", "1", "0", "3"])
                t[c] = Decimal(v)
                L.append(("inferred_tolerance_default", f"{c}:{v}"))
            o["inferred-tolerance-default"] = t
        if self.coin(0.25):
            v = self.ch(["0.01", "0.5", "2", "0"])
            o["inferred-tolerance-default-fallback"] = Decimal(v)
            L.append(("inferred_tolerance_default", f"*:{v}"))

    # ---- time
    def stamp(self, t):
        rank = {"open": 0, "balance": 1}.get(t, 2)
        if rank < self.rank or self.coin(0.6):
            self.advance()
        self.rank = rank
        y, m, d = self.date
        return f"{y:04d}-{m:02d}-{d:02d}"

    def advance(self):
        y, m, d = self.date
        if y == 9999:
            return
        if self.last is not None and len(self.ds) > self.last:
            self.date = [9999, 12, 31]
            self.rank = 0
            return
        d += self.ch(self.stride)
        while d > calendar.monthrange(y, m)[1]:
            d -= calendar.monthrange(y, m)[1]
            m += 1
            if m > 12:
                m = 1
                y += 1
        self.date = [y, m, d]
        self.rank = 0

    def done(self, body):
        """whether the last day is past what comes before this"""
        return self.date[0] == 9999 and {"open": 0, "balance": 1}.get(body["dct"], 2) < self.rank

    def add(self, body, keep_err=None):
        """feed the model; drop the directive if its outcome cannot be predicted, or if it fails and errors are not
        wanted"""
        save = (list(self.date), self.rank)
        if self.done(body):
            return False
        d = {"date": self.stamp(body["dct"])}
        d.update(body)
        i = len(self.ds)
        led = self.led
        ne, no = len(led.errors), len(led.out)
        if keep_err is None:
            keep_err = self.coin(self.p["err"])
        err = None
        if body["dct"] == "balance" or (body["dct"] == "pad"):
            snap = None if keep_err else copy.deepcopy(led)
        else:
            snap = None
        stats = dict(led.stats)
        try:
            led.one(i, d)
        except model.Fail as f:
            err = f
        except (model.Uncertain, model.KnownDefect, Overflow) as e:
            self.uncertain += 1
            self.date, self.rank = save
            led.stats = stats
            return False
        if (err is not None or len(led.errors) > ne) and not keep_err:
            self.date, self.rank = save
            if snap is not None:
                self.led = snap
            return False
        if err is not None:
            led.errors.append(err.report)
            led.stat("err:" + err.report.kind)
        self.ds.append(d)
        return True

    # ---- directives
    def g_open(self, acc=None):
        a = acc or self.accname()
        d = {"dct": "open", "acc": a}
        if self.coin(self.p["curs"]):
            cs = set(self.r.sample(self.cash, self.r.randrange(1, 3)))
            if self.coin(0.4) or "Inv" in a:
                cs |= set(self.stock[:2])
            if self.coin(0.06):
                # a long list, of which few are ever used
                cs |= {"ZZ" + a + b for a in "ABCDEFG" for b in "STUVWX"[:self.r.randrange(1, 7)]}
            d["currencies"] = sorted(cs)
        elif self.coin(self.p.get("allcurs", 0)):
            d["currencies"] = sorted(set(self.cash) | set(self.stock))
        ms = self.p["methods"] or METHODS
        if "Inv" in a:
            if self.coin(0.8):
                d["booking"] = self.ch(ms)
        elif self.coin(0.2):
            d["booking"] = self.ch(ms)
        return self.add(self.common(d))

    def g_close(self):
        if self.p["err"] == 0 and self.coin(0.8):
            return
        if self.p["err"] and self.coin(0.2):
            # one never opened, then opened after all, or used without
            a = self.ch(self.accs)
            if a not in self.led.accs and self.add(self.common({"dct": "close", "acc": a})):
                k = self.r.randrange(4)
                if k == 0:
                    self.add(self.common({"dct": "close", "acc": a}))
                elif k < 3:
                    self.txn([self.posting(a, self.amt(), self.ch(self.cash)), self.posting(self.openacc())])
                if self.coin():
                    self.g_open(a)
                return
        return self.add(self.common({"dct": "close", "acc": self.openacc()}))

    def cur_for(self, acc, pool):
        a = self.led.accs.get(acc)
        if a is not None and a.curs and self.coin(0.93):
            xs = [c for c in pool if c in a.curs]
            if xs:
                return self.ch(xs)
        return self.ch(pool)

    def posting(self, acc, units=None, cur=None, cost=None, price=None):
        p = {"acc": acc}
        if self.coin(self.p["meta"] * 0.5):
            p["flag"] = self.ch(FLAGS)
        if units is not None:
            p["units"] = units if isinstance(units, N) else self.num(units)
        if cur is not None:
            p["cur"] = cur
        if cost is not None:
            p["cost-spec"] = cost
        if price is not None:
            p["price-spec"] = price
        if self.coin(self.p["meta"] * 0.6):
            self.common(p, True)
        return p

    def txn(self, postings, shuffle=True):
        if shuffle and self.coin(0.7):
            self.r.shuffle(postings)
        d = {"dct": "txn", "flag": self.ch(FLAGS)}
        if self.coin(0.5):
            d["narration"] = self.string() or "n"
            if self.coin(0.4):
                d["payee"] = self.string() or "p"
        d["postings"] = postings
        return self.add(self.common(d))

    def t_many(self):
        """a long transaction"""
        c = self.ch(self.cash)
        n = self.r.randrange(8, 60) if self.coin(0.5 if self.p["many"] > 1 else 0.85) else self.r.randrange(60, self.p["longest"])
        vals = [self.amt() if self.coin() else -self.amt() for _ in range(n)]
        t = ZERO
        for v in vals:
            t = t + v
        ps = [self.posting(self.openacc(), v, c) for v in vals]
        if self.coin(0.5 * self.p["err"]):
            # a mistake somewhere within: of a lot not held, or of an account or a currency which may not be
            k = self.r.randrange(3)
            bad = (self.posting(self.openacc(), D(-1), self.ch(self.stock), cost={}) if k == 0 else self.posting(self.accname(), D(0), c) if k == 1
                   else self.posting(self.openacc(), D(0), self.ch(self.cash + self.odd)))
            ps.insert(self.r.randrange(len(ps) + 1), bad)
        ps.append(self.posting(self.openacc(), *((-t, c) if self.coin() else ())))
        return self.txn(ps)

    def t_simple(self):
        c = self.ch(self.cash)
        ok = lambda a: not self.led.accs[a].curs or c in self.led.accs[a].curs
        n = self.ch([2, 2, 2, 3, 4])
        accs = [self.openacc(ok) for _ in range(n)]
        vals = [self.amt() if self.coin(0.6) else -self.amt() for _ in range(n - 1)]
        ps = [self.posting(a, v, c) for a, v in zip(accs, vals)]
        t = ZERO
        for v in vals:
            t = t + v
        mode = self.r.randrange(10)
        last = accs[-1]
        if mode < 3:
            ps.append(self.posting(last))
        elif mode == 3:
            ps.append(self.posting(last, None, c))
        elif mode == 4:
            ps.append(self.posting(last, -t))           # currency to be inferred
        elif mode < 8:
            ps.append(self.posting(last, -t, c))
        else:
            # off by around the tolerance
            s = max(v.s for v in vals)
            off = D(self.ch([1, 4, 5, 6, 9, 10, 49, 50, 51, 100]), s + self.ch([0, 0, 1, 1, 2]))
            if self.coin():
                off = -off
            ps.append(self.posting(last, off - t, c))
        return self.txn(ps)

    def pricespec(self, per=None, total=None, cur=None):
        d = {}
        if per is not None:
            d["per-unit"] = self.num(per)
        if total is not None:
            d["total"] = self.num(total)
        if cur is not None:
            d["cur"] = cur
        return d

    def t_conv(self):
        c1, c2 = self.r.sample(self.cash, 2)
        if self.coin(0.3):
            c1 = self.ch(self.stock)
        a, b = self.openacc(), self.openacc()
        u = self.amt(1, 999)
        neg = self.coin(0.4)
        if neg:
            u = -u
        p = self.amt(1, 500, (0, 1, 2, 3))
        if self.coin(0.06):
            # given away
            p = D(0, self.ch([0, 1, 2]))
        elif self.coin(0.07):
            # taken, and paid for taking
            p = -p
        mode = self.r.randrange(9)
        if mode == 0:      # @ per unit, elided other leg
            ps = [self.posting(a, u, c1, price=self.pricespec(p, None, c2)), self.posting(b)]
        elif mode == 1:
            w = (u * p).rescaled(model.sane(u.s, p.s))
            ps = [self.posting(a, u, c1, price=self.pricespec(p, None, c2)), self.posting(b, -w, c2)]
        elif mode == 2:    # total, signed as the units
            t = -p if neg else p
            ps = [self.posting(a, u, c1, price=self.pricespec(None, t, c2)), self.posting(b, -t, c2)]
        elif mode == 3:    # price amount missing
            ps = [self.posting(a, u, c1, price=self.pricespec(None, None, c2)), self.posting(b, -p if not neg else p, c2)]
        elif mode == 4:    # units missing
            ps = [self.posting(a, None, c1, price=self.pricespec(p, None, c2)), self.posting(b, -self.amt(), c2)]
        elif mode == 5:    # price currency missing
            w = (u * p).rescaled(model.sane(u.s, p.s))
            ps = [self.posting(a, u, c1, price=self.pricespec(p)), self.posting(b, -w, c2)]
        elif mode == 6:
            t = -p if neg else p
            ps = [self.posting(a, u, c1, price=self.pricespec(None, t)), self.posting(b, -t, c2)]
        elif mode == 7:    # bare @
            ps = [self.posting(a, u, c1, price={}), self.posting(b, -p if not neg else p, c2)]
        else:              # currency missing
            w = (u * p).rescaled(model.sane(u.s, p.s))
            ps = [self.posting(a, u, None, price=self.pricespec(p, None, c2)), self.posting(b, -w, c2)]
        if self.coin(0.15):
            c3 = self.ch(self.cash)
            v = self.amt()
            ps += [self.posting(self.openacc(), v, c3), self.posting(self.openacc(), -v, c3)]
        return self.txn(ps)

    def invacc(self):
        xs = [a for a in self.led.open if "Inv" in a or self.led.accs[a].booking not in ("strict",)]
        return self.ch(xs) if xs and self.coin(0.9) else self.openacc()

    def costdate(self):
        y, m, d = self.date
        return self.ch([f"{y:04d}-{m:02d}-{d:02d}", "2019-06-01", "2019-06-02", "2020-01-05"])

    def t_buy(self):
        a, b = self.invacc(), self.openacc()
        s = self.cur_for(a, self.stock)
        c = self.ch(self.cash[:2])
        u = D(self.r.randrange(1, 12), self.ch([0, 0, 0, 1]))
        per = D(self.ch([10, 12, 15, 20, 1050, 333]), self.ch([0, 0, 1, 2]))
        spec = {}
        mode = self.r.randrange(9)
        w = None
        if mode <= 3:
            spec = {"per-unit": self.num(per), "cur": c}
            w = (u * per).rescaled(model.sane(u.s, per.s))
        elif mode == 4:
            t = D(self.r.randrange(10, 500), self.ch([0, 2]))
            spec = {"total": self.num(t), "cur": c}
            w = t
        elif mode == 5:
            spec = {"cur": c}
            w = self.amt(10, 5000, (0, 2))
        elif mode == 6:
            spec = {"per-unit": self.num(per)}
            w = (u * per).rescaled(model.sane(u.s, per.s))
        elif mode == 7:
            spec = {}
            w = self.amt(10, 5000, (0, 2))
        else:
            t = D(self.r.randrange(10, 500), 0)
            spec = {"per-unit": self.num(per), "total": self.num(t), "cur": c}
            w = t
        if self.coin(0.3):
            spec["date"] = self.costdate()
        if self.coin(0.3):
            spec["label"] = self.ch(["lot-a", "lot-b", "x\"y", "\u00e9"] if self.coin(0.8) else ["lot-a ", " lot-a", "Lot-a", "lot-A", "lot\n", "lot", "", ""])
        if self.coin(0.05):
            spec["merge"] = True
        pr = None
        if self.coin(0.1):
            pr = self.pricespec(self.amt(), None, c)
        if self.coin(0.12):
            u2 = None
            ps = [self.posting(a, u2, s, cost=spec, price=pr), self.posting(b, -w, c)]
        elif self.coin(0.5):
            ps = [self.posting(a, u, s, cost=spec, price=pr), self.posting(b)]
        else:
            ps = [self.posting(a, u, s, cost=spec, price=pr), self.posting(b, -w, c)]
        if self.coin(0.15):
            u3 = D(self.r.randrange(1, 5), 0)
            ps.insert(1, self.posting(a, u3, s, cost={"per-unit": self.num(per), "cur": c}))
            ps[-1] = self.posting(b)
        return self.txn(ps)

    def sellspec(self, a, s):
        lots = [p for p in self.led.accs[a].pos if p.cur == s and p.cost is not None]
        if not lots:
            return {}, D(1, 0), None
        lot = self.ch(lots)
        spec = {}
        if self.coin(0.4):
            spec["per-unit"] = self.num(lot.cost.per)
        if self.coin(0.4):
            spec["cur"] = lot.cost.cur
        if self.coin(0.25):
            spec["date"] = lot.cost.date
        if self.coin(0.2) and lot.cost.label is not None:
            spec["label"] = lot.cost.label
        if self.coin(0.05):
            spec["date"] = self.costdate()
        if self.coin(0.03):
            spec["label"] = "nolot"
        total = ZERO
        for p in lots:
            total = total + p.units
        k = self.r.randrange(8)
        if k <= 2:
            u = lot.units
        elif k == 3:
            u = total
        elif k == 4:
            u = total + D(self.ch([1, 5]), self.ch([0, 1, 2]))
        else:
            hi = abs(lot.units) if k < 7 else abs(total)
            u = D(self.r.randrange(1, max(2, hi.m + 1)), hi.s)
            if lot.units.sign() < 0:
                u = -u
        return spec, u, lot

    def t_sell(self):
        held = [(a, p.cur) for a in self.led.open for p in self.led.accs[a].pos if p.cost is not None]
        if not held:
            return self.t_buy()
        a, s = self.ch(held)
        spec, u, lot = self.sellspec(a, s)
        c = lot.cost.cur if lot else self.ch(self.cash)
        pr = self.pricespec(self.amt(1, 50, (0, 1)), None, c) if self.coin(0.3) else None
        ps = [self.posting(a, -u, s, cost=spec, price=pr)]
        k = self.r.randrange(10)
        if k < 5:
            ps.append(self.posting(self.openacc()))
        elif k < 8:
            ps.append(self.posting(self.openacc(), self.amt(10, 500), c))
            ps.append(self.posting(self.openacc()))
        elif k == 8:
            spec2, u2, _ = self.sellspec(a, s)
            ps.append(self.posting(a, -u2, s, cost=spec2))
            ps.append(self.posting(self.openacc()))
        else:
            ps.append(self.posting(self.openacc(), u * (lot.cost.per if lot else D(1)), c))
        return self.txn(ps)

    def t_hoard(self):
        """many lots of one stock, then a sale of most or all of them at once"""
        a, b = self.invacc(), self.openacc()
        s, c = self.cur_for(a, self.stock), self.ch(self.cash[:2])
        n = self.r.randrange(7, 30) if self.coin(0.8) else self.r.randrange(30, 90)
        lots = [(D(self.r.randrange(1, 9), 0), D(self.r.randrange(100, 9000), self.ch([0, 1, 2])),
                 self.costdate() if self.coin(0.3) else None, self.ch(["lot-a", "lot-b"]) if self.coin(0.2) else None) for _ in range(n)]
        at = 0
        while at < n:
            k = self.ch([1, 2, n - at, n - at])
            ps = []
            for u, per, date, label in lots[at:at + k]:
                spec = {"per-unit": self.num(per), "cur": c}
                if date:
                    spec["date"] = date
                if label:
                    spec["label"] = label
                ps.append(self.posting(a, u, s, cost=spec))
            ps.append(self.posting(b))
            self.txn(ps)
            at += max(1, k)
        if a not in self.led.accs:
            return
        total = ZERO
        for p in self.led.accs[a].pos:
            if p.cur == s and p.cost is not None:
                total = total + p.units
        if total.sign() <= 0:
            return
        u = total if self.coin() else total - D(self.r.randrange(0, 12), 0)
        if self.coin(0.5):
            ps = [self.posting(a, -u, s, cost={}), self.posting(self.openacc())]
        else:
            v = D(self.r.randrange(1, 12), 0)
            ps = [self.posting(a, -v, s, cost={}), self.posting(a, -(u - v), s, cost={"cur": c} if self.coin() else {}), self.posting(self.openacc())]
        return self.txn(ps)

    def t_junk(self):
        n = self.r.randrange(0, 5)
        ps = []
        for _ in range(n):
            k = self.r.randrange(7)
            a = self.openacc() if self.coin(0.8) else self.accname()
            u = self.amt() if self.coin() else -self.amt()
            c = self.ch(self.cash + self.stock[:1])
            if k == 0:
                ps.append(self.posting(a))
            elif k == 1:
                ps.append(self.posting(a, None, c))
            elif k == 2:
                ps.append(self.posting(a, u))
            elif k == 3:
                ps.append(self.posting(a, u, c))
            elif k == 4:
                ps.append(self.posting(a, abs(u) if self.coin(0.7) else None, c if self.coin(.8) else None,
                                       cost={"cur": self.ch(self.cash)} if self.coin() else {}))
            elif k == 5:
                ps.append(self.posting(a, u if self.coin(0.8) else None, c if self.coin(0.8) else None,
                                       price=self.pricespec(self.amt() if self.coin() else None, None,
                                                            self.ch(self.cash) if self.coin(0.7) else None)))
            else:
                ps.append(self.posting(a, u, c))
                ps.append(self.posting(self.openacc(), -u, c))
        return self.txn(ps)

    def t_multi(self):
        """several currencies, each balanced on its own or elided within its own currency"""
        ps = []
        cs = self.r.sample(self.cash, self.r.randrange(1, 4))
        pred = None
        if self.coin(0.1):
            # a great many currencies
            cs = cs + ["CU" + x for x in "ABCDEFGHIJKL"[:self.r.randrange(2, 13)]]
            pred = lambda a: not self.led.accs[a].curs
        for c in cs:
            v = self.amt()
            ps.append(self.posting(self.openacc(pred), v, c))
            if self.coin(0.75):
                ps.append(self.posting(self.openacc(pred), -v, c))
            else:
                ps.append(self.posting(self.openacc(pred), None, c))
        if self.coin(0.15):
            ps.append(self.posting(self.openacc()))
        return self.txn(ps)

    def g_txn(self):
        w = [(self.t_simple, 4 * self.p["simple"]), (self.t_conv, 2 * self.p["conv"]),
             (self.t_buy, 2.5 * self.p["lots"]), (self.t_sell, 3 * self.p["lots"]),
             (self.t_junk, 1.2 * self.p["junk"]), (self.t_multi, 1 * self.p["interp"]), (self.t_many, self.p["many"]),
             (self.t_hoard, self.p["hoard"])]
        return self.weighted(w)()

    def weighted(self, w):
        t = sum(x for _, x in w)
        v = self.r.random() * t
        for f, x in w:
            v -= x
            if v <= 0:
                return f
        return w[-1][0]

    def g_balance(self, acc=None, cur=None, force=None):
        a = acc or self.openacc()
        cs = sorted({p.cur for n, x in self.led.accs.items() if model.is_sub(a, n) for p in x.pos})
        c = cur or (self.ch(cs) if cs and self.coin(0.85) else self.cur_for(a, self.cash + self.stock[:1]))
        have = self.led.rollup(a, c)
        d = {"dct": "balance", "acc": a, "cur": c}
        k = force if force is not None else self.r.randrange(10)
        units = have
        tol = None
        ac = self.led.accs.get(a)
        padded = ac is not None and ac.pad is not None
        if self.p["err"] == 0 and not padded and k >= 3:
            k = self.ch([0, 1, 2, 3, 4])
        if padded and self.coin(0.8):
            units = have + (self.amt() if self.coin() else -self.amt())
        elif k <= 2:
            pass
        elif k == 3:    # explicit tolerance, inside or on the edge
            tol = D(self.r.randrange(0, 60), self.ch([0, 1, 2]))
            off = self.ch([tol, -tol, D(0, 0), tol * D(5, 1), -(tol * D(5, 1))])
            units = have + off
        elif k == 4:    # inferred tolerance: a coarser scale
            s = self.ch([0, 1, 1, 2])
            units = have.rescaled(min(s, have.s)) if have.s > s else have
        elif k == 5:    # just outside an explicit tolerance
            tol = D(self.r.randrange(0, 60), 2)
            off = tol + D(1, self.ch([2, 3, 4]))
            units = have + (off if self.coin() else -off)
        elif k == 6:    # around the inferred tolerance
            s = max(1, have.s)
            off = D(self.ch([9, 10, 11, 19, 20, 21, 4, 5, 6]), s + 1)
            units = (have + (off if self.coin() else -off))
            if self.coin():
                units = D(*_sc(units, s + 1))
        elif k == 7:
            units = have + (self.amt() if self.coin() else -self.amt())
        elif k == 8:
            units = -have
        else:
            units = have.rescaled(have.s + 1)
        d["units"] = self.num(units)
        if tol is not None:
            d["tolerance"] = self.num(tol, signless=True)
        return self.add(self.common(d))

    def g_pad(self):
        a, s = self.openacc(), self.openacc((lambda x: x.startswith("Equity:")) if self.coin(0.3) else None)
        if model.is_sub(a, s) and self.coin(0.8):
            return
        if not self.add(self.common({"dct": "pad", "acc": a, "source": s})):
            return
        if self.coin(0.8) or self.p["err"] == 0:
            if self.coin(0.3):
                self.g_txn()
            x = self.led.accs.get(a)
            if x is not None and x.curs and self.p["err"] and self.coin(0.5):
                # asked of a currency it may not hold, which concerns the pad not at all
                self.g_balance(acc=a, cur=self.ch(self.cash + self.stock + self.odd))
            self.g_balance(acc=a)

    def g_pass(self):
        r = self.r.randrange(7)
        if r == 0:
            d = {"dct": "price", "cur": self.ch(self.stock + self.odd),
                 "price": {"per-unit": self.num(self.amt()), "cur": self.ch(self.cash)}}
        elif r == 1:
            d = {"dct": "commodity", "cur": self.ch(self.stock + self.odd + self.cash)}
        elif r == 2:
            d = {"dct": "document", "acc": self.accname(), "path": self.ch(["docs/a.pdf", "/abs/b.txt", self.string(), self.string(), "docs/", "./a.pdf", "../a//b.pdf", "a b.pdf", "~/x", "C:\\x", "a%20b", "http://x/y#z"])}
        elif r == 3:
            d = {"dct": "note", "acc": self.accname(), "comment": "" if self.coin(0.08) else self.string()}
        elif r == 4:
            d = {"dct": "event", "type": self.string(), "description": "" if self.coin(0.08) else self.string()}
        elif r == 5:
            d = {"dct": "query", "name": self.string(), "content": self.string()}
        else:
            vs = []
            for _ in range(self.r.randrange(0, 5) if self.coin(0.93) else self.r.randrange(5, 40)):
                v = self.metavalue()
                if vs and vs[-1] is not None and "number" in vs[-1] and (v is None or {"cur", "units", "number"} & set(v)):
                    v = {"string": "sep"}
                if vs and v is not None and "units" in v or v is not None and "number" in v:
                    x = v.get("units", v.get("number"))
                    if vs and x < 0 or x.text[0] in "(-+":
                        k = "units" if "units" in v else "number"
                        v[k] = N(abs(Decimal(x)))
                        if vs and vs[-1] is not None and "number" in vs[-1]:
                            v = {"bool": True}
                vs.append(v)
            d = {"dct": "custom", "type": self.string(), "values": vs}
        self.common(d)
        if d["dct"] == "custom":
            d.pop("tags", None) if False else None
        return self.add(d)

    def build(self):
        # most accounts open early
        for a in self.accs:
            if self.coin(self.p["preopen"]):
                self.g_open(a)
                self.rank = 0
        n = self.p["n"]
        guard = 0
        while len(self.ds) < n + 8 and guard < 6 * n:
            guard += 1
            w = [(self.g_txn, 5), (self.g_balance, 1.6 * self.p["balance"]), (self.g_pad, 0.7 * self.p["pad"]),
                 (self.g_pass, 0.9 * self.p["passthrough"]), (self.g_open, 0.5 * self.p["lifecycle"]),
                 (self.g_close, 0.4 * self.p["lifecycle"])]
            self.weighted(w)()
        if self.p["err"] == 0:
            for a in list(self.led.accs):
                t = 0
                while self.led.accs[a].pad is not None and t < 30:
                    t += 1
                    self.g_balance(acc=a)
                if self.led.accs[a].pad is not None:
                    # give up: drop back to reporting it
                    pass
        return self


def _sc(d, s):
    d = d.rescaled(s) if d.s != s else d
    return d.m, d.s


# ------------------------------------------------------------------ text

def esc(s, rng=None):
    out = []
    for c in s:
        if c == '"':
            out.append('\\"')
        elif c == "\\":
            out.append("\\\\")
        elif c == "\n" and rng is not None and rng.random() < 0.5:
            out.append("\\n")
        elif c == "\t" and rng is not None and rng.random() < 0.5:
            out.append("\\t")
        elif ord(c) > 127 and rng is not None and rng.random() < 0.1:
            out.append("\\u{%x}" % ord(c))
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


def meta_text(v, rng=None):
    if v is None:
        return "NULL" if rng is None or rng.random() < 0.5 else ""
    if "units" in v:
        return f"{nt(v['units'])} {v['cur']}"
    if "string" in v:
        return esc(v["string"], rng)
    if "cur" in v:
        return v["cur"]
    if "acc" in v:
        return v["acc"]
    if "tag" in v:
        return "#" + v["tag"]
    if "link" in v:
        return "^" + v["link"]
    if "date" in v:
        return v["date"]
    if "bool" in v:
        return "TRUE" if v["bool"] else "FALSE"
    return nt(v["number"])


def nt(x):
    return x.text if isinstance(x, N) else format(Decimal(x), "f")


class Style:
    """how a ledger is laid out; never changes what it means"""

    def __init__(self, rng=None, plain=True):
        self.r = rng
        self.plain = plain or rng is None
        self.crlf = (not self.plain) and rng.random() < 0.15

    def sp(self):
        if self.plain:
            return " "
        return self.r.choice([" ", " ", "  ", "\t", "      "])

    def indent(self):
        if self.plain:
            return "  "
        return self.r.choice(["  ", " ", "    ", "\t", "        "])

    def date(self, d):
        if self.plain or self.r.random() < 0.8:
            return d
        return d.replace("-", "/")

    def tail(self):
        if self.plain:
            return ""
        return self.r.choice(["", "", "", "  ", " ; a comment \u00e9", ";c", "\t"])

    def gap(self):
        if self.plain:
            return ""
        return self.r.choice(["", "", "\n", "\n\n", "; whole line 2020-01-01 open X\n", "* org heading\n", "  ; indented comment\n"])

    def coin(self, p):
        return (not self.plain) and self.r.random() < p

    def rr(self):
        return None if self.plain else self.r


def cost_text(c, st):
    comps = []
    per, tot, cur = c.get("per-unit"), c.get("total"), c.get("cur")
    amt = ""
    if per is not None and tot is not None:
        amt = f"{nt(per)} # {nt(tot)}"
    elif per is not None:
        amt = nt(per)
    elif tot is not None:
        amt = f"# {nt(tot)}"
    if amt and cur:
        comps.append(f"{amt} {cur}")
    elif amt or cur:
        comps.append(amt or cur)
    if c.get("date"):
        comps.append(st.date(c["date"]))
    if c.get("label") is not None:
        comps.append(esc(c["label"], st.rr()))
    if c.get("merge"):
        comps.append("*")
    if st.coin(0.5):
        st.r.shuffle(comps)
    return "{" + (", " if st.plain else st.r.choice([", ", ", ", " , "])).join(comps) + "}"


def price_text(p):
    at = "@@" if p.get("total") is not None else "@"
    n = p.get("total") if p.get("total") is not None else p.get("per-unit")
    parts = [at]
    if n is not None:
        parts.append(nt(n))
    if p.get("cur"):
        parts.append(p["cur"])
    return " ".join(parts)


class Out:
    def __init__(self):
        self.b = []
        self.n = 0

    def w(self, s):
        self.b.append(s)
        self.n += len(s.encode())

    def text(self):
        return "".join(self.b)


def tags_links(d, st):
    ts = ["#" + t for t in d.get("tags") or ()] + ["^" + l for l in d.get("links") or ()]
    if st.coin(1):
        st.r.shuffle(ts)
    return ts


def render_directive(d, st, o, spans=None):
    """write one directive; record the byte span of the text proper and of its postings"""
    start = o.n
    t = d["dct"]
    parts = [st.date(d["date"])]
    late = []
    if t == "txn":
        f = d["flag"]
        parts.append("txn" if f == "*" and st.coin(0.3) else f)
        if "payee" in d:
            parts += [esc(d["payee"], st.rr()), esc(d["narration"], st.rr()) if "narration" in d else '""']
        elif "narration" in d:
            parts.append(esc(d["narration"], st.rr()))
    elif t == "price":
        parts += ["price", d["cur"], nt(d["price"]["per-unit"]), d["price"]["cur"]]
    elif t == "balance":
        parts += ["balance", d["acc"], nt(d["units"])]
        if d.get("tolerance") is not None:
            parts += ["~", nt(d["tolerance"])]
        parts.append(d["cur"])
    elif t == "open":
        parts += ["open", d["acc"]]
        if d.get("currencies"):
            cs = list(d["currencies"])
            if st.coin(0.5):
                st.r.shuffle(cs)
            parts.append((", " if st.coin(0.3) else ",").join(cs))
        if d.get("booking"):
            parts.append('"' + METHOD_TEXT[d["booking"]] + '"')
    elif t == "close":
        parts += ["close", d["acc"]]
    elif t == "commodity":
        parts += ["commodity", d["cur"]]
    elif t == "pad":
        parts += ["pad", d["acc"], d["source"]]
    elif t == "document":
        parts += ["document", d["acc"], esc(d["path"], st.rr())]
    elif t == "note":
        parts += ["note", d["acc"], esc(d["comment"], st.rr())]
    elif t == "event":
        parts += ["event", esc(d["type"], st.rr()), esc(d["description"], st.rr())]
    elif t == "query":
        parts += ["query", esc(d["name"], st.rr()), esc(d["content"], st.rr())]
    elif t == "custom":
        parts += ["custom", esc(d["type"], st.rr())] + [meta_text(v) for v in d["values"]]
    tl = tags_links(d, st)
    if t == "custom":
        late = tl
    else:
        for x in tl:
            (late if st.coin(0.3) else parts).append(x)
    for i, p in enumerate(parts):
        if i:
            o.w(st.sp())
        o.w(p)
    end = o.n

    def eol():
        o.w(st.tail() + "\n")
    eol()

    def metas(m, lt, ind):
        nonlocal end
        lines = [x for x in lt] + [f"{k}:{st.sp()}{meta_text(v, st.rr())}" for k, v in (m or {}).items()]
        if st.coin(0.5):
            st.r.shuffle(lines)
        for l in lines:
            l = l.rstrip()
            o.w(ind + l)
            end = o.n
            eol()
    metas(d.get("metadata"), late, st.indent())
    pspans = []
    for p in d.get("postings") or ():
        ind = st.indent()
        o.w(ind)
        ps = o.n
        toks = []
        if p.get("flag"):
            toks.append(p["flag"])
        toks.append(p["acc"])
        if p.get("units") is not None:
            toks.append(nt(p["units"]))
        if p.get("cur"):
            toks.append(p["cur"])
        if p.get("cost-spec") is not None:
            toks.append(cost_text(p["cost-spec"], st))
        if p.get("price-spec") is not None:
            toks.append(price_text(p["price-spec"]))
        for i, x in enumerate(toks):
            if i:
                o.w(st.sp())
            o.w(x)
        end = o.n
        pspans.append((ps, o.n))
        eol()
        metas(p.get("metadata"), tags_links(p, st), ind + "  ")
    if spans is not None:
        spans.append((start, end, pspans))
    return start, end, pspans


def interleave(ds, rng):
    """a permutation of the directives that sorts back to the given order (stable by date, then opens, then balances)"""
    def key(d):
        return (d["date"], {"open": 0, "balance": 1}.get(d["dct"], 2))
    idx = list(range(len(ds)))
    rng.shuffle(idx)
    byk = {}
    for i in sorted(idx):
        byk.setdefault(key(ds[i]), []).append(i)
    out = []
    for i in idx:
        out.append(byk[key(ds[i])].pop(0))
    return out


def render(ds, optlines=(), st=None, order=None, head="", sep=True):
    """returns (text, {directive index: (start, end, posting spans)})"""
    st = st or Style()
    o = Out()
    o.w(head)
    for k, v in optlines:
        o.w(f'option "{k}" {esc(v)}\n')
    spans = {}
    for i in (order if order is not None else range(len(ds))):
        o.w((st.gap() if o.n else "") if not st.plain else ("\n" if sep else ""))
        spans[i] = render_directive(ds[i], st, o)
    t = o.text()
    return t, spans
