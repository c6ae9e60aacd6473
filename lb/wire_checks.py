"""Checks of what crosses the wire: fidelity to the source, round trips, determinism, spans, reports."""
import copy
import json
import os
import random
import re
from decimal import Decimal

from . import booking_checks as B, compare, gen, model
from .compare import lit, show
from .core import dumps, loads, req
from .dec import D, Overflow

SETKEYS = ("tags", "links", "currencies", "operating-currency", "documents")


def canon(x, key=None):
    """the meaning of an answer: sets unordered, numbers by their digits"""
    if isinstance(x, dict):
        return {k: canon(v, k) for k, v in x.items()}
    if isinstance(x, list):
        l = [canon(v) for v in x]
        return sorted(l) if key in SETKEYS and all(isinstance(v, str) for v in l) else l
    if isinstance(x, Decimal):
        return ("num", lit(x))
    return x


def differing(a, b, path="$"):
    """where two canonical answers part"""
    if type(a) is not type(b):
        return f"{path}: {a!r} vs {b!r}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k}: {a[k]!r} vs nothing"
            d = differing(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        for k in b:
            if k not in a:
                return f"{path}.{k}: nothing vs {b[k]!r}"
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = differing(x, y, f"{path}[{i}]")
            if d:
                return d
        if len(a) != len(b):
            return f"{path}: {len(a)} vs {len(b)} elements"
        return None
    return None if a == b else f"{path}: {a!r} vs {b!r}"


# ------------------------------------------------------------- C10: fidelity to the source

class RawGen(gen.Gen):
    """directives of every shape the language has, whether or not they could be booked"""

    def __init__(self, rng, **kw):
        kw.setdefault("opts", False)
        super().__init__(rng, **kw)

    def add(self, body, keep_err=None):
        if self.done(body):
            return False
        d = {"date": self.stamp(body["dct"])}
        d.update(body)
        self.ds.append(d)
        return True

    def anynum(self):
        r = self.r
        k = r.randrange(6)
        if k == 0 and self.coin(0.1):
            # whole, and beyond what machine words hold
            return D(self.ch([2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 10 ** 19, 10 ** 25 + 7]), 0)
        if k == 0:
            return D(r.randrange(0, 10 ** r.randrange(1, 28)), r.randrange(0, 29))
        if k == 1:
            return D(r.randrange(0, 10) * 10 ** r.randrange(0, 8), r.randrange(0, 8))
        return self.amt()

    def signed(self):
        d = self.anynum()
        return -d if self.coin(0.4) and d.m else d

    def rawposting(self):
        r = self.r
        p = {}
        if self.coin(0.3):
            p["flag"] = self.ch(gen.FLAGS)
        p["acc"] = self.accname()
        if self.coin(0.8):
            p["units"] = self.num(self.signed())
        if self.coin(0.8):
            p["cur"] = self.ch(self.cash + self.stock + self.odd)
        if self.coin(0.4):
            c = {}
            k = r.randrange(4)
            if k in (1, 3):
                c["per-unit"] = self.num(self.signed())
            if k in (2, 3):
                c["total"] = self.num(self.signed())
            if self.coin(0.6):
                c["cur"] = self.ch(self.cash)
            if self.coin(0.4):
                c["date"] = self.ch(["2019-06-01", "2020-02-29", "1970-01-01"])
            if self.coin(0.4):
                c["label"] = self.string()
            if self.coin(0.3):
                c["merge"] = True
            p["cost-spec"] = c
        if self.coin(0.35):
            q = {}
            k = r.randrange(3)
            if k:
                q["per-unit" if k == 1 else "total"] = self.num(self.signed())
            if self.coin(0.7) or not q:
                q["cur"] = self.ch(self.cash)
            p["price-spec"] = q
        return self.common(p, True) if self.coin(0.5) else p

    def raw_txn(self):
        self.txn([self.rawposting() for _ in range(self.ch([0, 1, 2, 2, 3, 5]))])

    def raw_balance(self):
        d = {"dct": "balance", "acc": self.accname(), "units": self.num(self.signed()), "cur": self.ch(self.cash + self.stock)}
        if self.coin(0.4):
            d["tolerance"] = self.num(D(0, self.ch([0, 0, 1, 2, 5])) if self.coin(0.15) else self.anynum(), signless=True)
        self.add(self.common(d))

    def raw_open(self):
        d = {"dct": "open", "acc": self.accname()}
        if self.coin():
            d["currencies"] = sorted(self.r.sample(self.cash + self.stock + self.odd, self.r.randrange(1, 5)))
        if self.coin():
            d["booking"] = self.ch(gen.METHODS)
        self.add(self.common(d))

    def raw_price(self):
        self.add(self.common({"dct": "price", "cur": self.ch(self.stock + self.odd),
                              "price": {"per-unit": self.num(self.signed()), "cur": self.ch(self.cash)}}))

    def build(self):
        w = [(self.raw_txn, 5), (self.raw_balance, 1), (self.raw_open, 1), (self.raw_price, 1), (self.g_pass, 3),
             (lambda: self.add(self.common({"dct": "close", "acc": self.accname()})), 0.5),
             (lambda: self.add(self.common({"dct": "pad", "acc": self.accname(), "source": self.accname()})), 0.5)]
        while len(self.ds) < self.p["n"]:
            self.weighted(w)()
        return self


def raw_ledger(rng, **kw):
    """(directives, text, spans) of a ledger of arbitrary directives"""
    kw.setdefault("n", rng.choice([1, 4, 10, 20, 60]))
    kw.setdefault("meta", rng.choice([0.1, 0.5, 0.9]))
    kw.setdefault("big", 0.2)
    kw.setdefault("exprs", rng.choice([0, 0.2]))
    kw.setdefault("date", rng.choice([(2020, 1, 1), (1900, 1, 1), (1, 1, 1), (9990, 1, 1)]))
    if rng.random() < 0.3:
        kw.setdefault("accounts", gen.random_accounts(rng, rng.randrange(3, 12)))
    g = RawGen(rng, **kw).build()
    order = gen.interleave(g.ds, rng) if rng.random() < 0.4 else None
    st = gen.Style(rng, plain=rng.random() < 0.4)
    text, spans = gen.render(g.ds, (), st, order)
    return g.ds, text, spans


def sig_raw(ds):
    """what shapes of directive were seen"""
    out = set()
    for d in ds:
        out.add((d["dct"], tuple(sorted(k for k in d if k not in ("dct", "date", "acc")))))
        for p in d.get("postings") or ():
            out.add(("posting", tuple(sorted(p)), tuple(sorted(p.get("cost-spec") or ("-",))), tuple(sorted(p.get("price-spec") or ("-",)))))
        for v in list((d.get("metadata") or {}).values()) + list(d.get("values") or ()):
            out.add(("value", tuple(sorted(v)) if v else None))
    return tuple(sorted(map(repr, out)))


def judge_raw(ds, resp, where, res):
    """what the service says the file contains, against what was written"""
    r = resp.get("result")
    if not isinstance(r, dict) or set(r) != {"directives", "warnings"} or r["warnings"] is not None:
        res.viol("raw.answer", f"parsed ledger answered with {show(resp)[:600]}")
        return
    got = r["directives"]
    if len(got) != len(ds):
        res.viol("raw.count", f"{len(ds)} directives written, {len(got)} reported")
        return
    for i, (e, a) in enumerate(zip(ds, got)):
        diffs = []
        compare.raw(e, a, i, diffs)
        res.obs("raw-" + e["dct"])
        if where is not None:
            res.obs("span")
            if where.locate(a.get("span")) != [i]:
                diffs.append(compare.Diff("raw.span", i, f"span {show(a.get('span'))} is not directive {i}, which is at {where.spans[i][:2]}"))
            for j, p in enumerate(a.get("postings") or ()):
                res.obs("span")
                if where.locate(p.get("span")) != [i, j]:
                    diffs.append(compare.Diff("raw.posting.span", i, f"span {show(p.get('span'))} is not posting {j} of {i}"))
        for d in diffs[:3]:
            res.viol(d.tag, repr(d))
        if diffs:
            return


def kind_raw(ctx, rng, res):
    ds, text, spans = raw_ledger(rng)
    run = ctx.ask(text, "parser.directives")
    res.case(sig_raw(ds))
    if res.sample is None:
        res.sample = {"ledger": text[:1000], "directives": len(ds)}
    if res.served(run):
        judge_raw(ds, run.responses()[0], compare.Where(text, spans, ds), res)
    if res.viols:
        res.files["ledger"] = text
        res.files["answer"] = run.out.decode(errors="replace")[:6000]


def kind_raw_booked(ctx, rng, res):
    """the same over ledgers that book, pushtag/pushmeta excluded"""
    try:
        L = B.make(rng, B.FIELDS(rng))
    except (model.Uncertain, model.KnownDefect, Overflow):
        res.inconclusive += 1
        return
    run = ctx.ask(L.text, "parser.directives")
    res.case(B.profile_sig(L))
    if res.served(run):
        judge_raw(L.ds, run.responses()[0], L.where, res)
    if res.viols:
        res.files["ledger"] = L.text


# ------------------------------------------------------------- writing JSON in other words

class Emit:
    """the same JSON value, written differently"""

    def __init__(self, rng, shuffle=True, space=True, escapes=(), nulls=0.0, numbers=0.0):
        self.r, self.shuffle, self.space, self.escapes, self.nulls, self.numbers = rng, shuffle, space, escapes, nulls, numbers

    def s(self, x, esc=False):
        t = json.dumps(x, ensure_ascii=False)
        if esc and self.r.random() < 0.5:
            out = []
            for c in t[1:-1] if "\\" not in t else []:
                if self.r.random() < 0.3 or (ord(c) > 127 and self.r.random() < 0.6):
                    b = c.encode("utf-16-be")
                    out.append("".join("\\u%02x%02x" % (b[i], b[i + 1]) for i in range(0, len(b), 2)))
                else:
                    out.append(c)
            if out:
                t = '"' + "".join(out) + '"'
            elif "\\" in t:
                t = json.dumps(x, ensure_ascii=True)
        return t

    def w(self):
        return self.r.choice(["", "", "", " ", "  ", "\t"]) if self.space else ""

    def num(self, x):
        t = getattr(x, "lit", None) or getattr(x, "wire", None) or format(Decimal(x), "f")
        if self.r.random() < self.numbers and "." in t:
            # as Java writes a small number: digits and a negative exponent
            ip, fp = t.split(".")
            sign = "-" if ip.startswith("-") else ""
            digits = (ip.lstrip("-") + fp).lstrip("0")
            if digits:
                return f"{sign}{digits}E-{len(fp)}"
        return t

    def __call__(self, x, key=None):
        w = self.w
        if isinstance(x, dict):
            ks = list(x)
            if self.shuffle:
                self.r.shuffle(ks)
            return "{" + w() + ("," + w()).join(self.s(k) + w() + ":" + w() + self(x[k], k) for k in ks) + w() + "}"
        if isinstance(x, (list, tuple)):
            return "[" + w() + ("," + w()).join(self(v, key) for v in x) + w() + "]"
        if isinstance(x, bool) or x is None:
            return json.dumps(x)
        if isinstance(x, Decimal):
            return self.num(x)
        if isinstance(x, int):
            return str(x)
        return self.s(x, key in self.escapes)


# names of things must arrive unescaped (recorded as a finding); prose may be escaped
PROSE = ("payee", "narration", "comment", "path", "type", "description", "name", "content", "label", "string",
         "message", "reason", "annotation")
OPTIONAL = {
    None: ["span", "tags", "links", "metadata"],
    "txn": ["payee", "narration"], "balance": ["tolerance"], "open": ["currencies", "booking"],
}


def with_nulls(d, rng, p=0.5):
    """absent and null mean the same"""
    d = dict(d)
    for k in OPTIONAL[None] + OPTIONAL.get(d["dct"], []):
        if k not in d and rng.random() < p:
            d[k] = None
    if d["dct"] == "txn":
        ps = []
        for q in d["postings"]:
            q = dict(q)
            for k in ("span", "flag", "units", "cur", "cost-spec", "price-spec", "tags", "links", "metadata"):
                if k not in q and rng.random() < p:
                    q[k] = None
            c = q.get("cost-spec")
            if c is not None:
                c = q["cost-spec"] = dict(c)
                for k in ("per-unit", "total", "cur", "label"):
                    if k not in c and rng.random() < p:
                        c[k] = None
                if "merge" not in c and rng.random() < p:
                    c["merge"] = False
            c = q.get("price-spec")
            if c is not None:
                c = q["price-spec"] = dict(c)
                for k in ("per-unit", "total", "cur"):
                    if k not in c and rng.random() < p:
                        c[k] = None
            ps.append(q)
        d["postings"] = ps
    return d


def with_empties(d, rng, p=0.6):
    """nothing is also an empty collection"""
    def some(x):
        x = dict(x)
        for k in ("tags", "links"):
            if k not in x and rng.random() < p:
                x[k] = []
        if "metadata" not in x and rng.random() < p:
            x["metadata"] = {}
        return x

    d = some(d)
    if d["dct"] == "open" and "currencies" not in d and rng.random() < p:
        d["currencies"] = []
    if d["dct"] == "txn":
        d["postings"] = [some(q) for q in d["postings"]]
    return d


def sans_empties(a):
    """an answer with no empty collections"""
    if isinstance(a, dict):
        return {k: sans_empties(v) for k, v in a.items() if not (k in ("tags", "links", "metadata", "currencies") and v in ([], {}))}
    if isinstance(a, list):
        return [sans_empties(v) for v in a]
    return a


EXTRA = ["provenance", "idx", "span-p", "x", "id", "method"]


def with_extras(d, rng):
    """clients annotate directives with keys of their own"""
    d = dict(d)
    if rng.random() < 0.3:
        d[rng.choice(EXTRA[:4])] = rng.choice([1, None, "y", ["a", 1], {"k": [None]}])
    if "postings" in d and d["postings"] and rng.random() < 0.3:
        d["postings"] = [dict(q) for q in d["postings"]]
        rng.choice(d["postings"])[rng.choice(EXTRA[:4])] = rng.choice([1, "y", ["Synthetic"]])
    return d


def index_of(reports, where):
    """spanned reports, by index"""
    out = []
    for a in reports:
        i = where.locate(a["span"])
        rel = a.get("related")
        out.append({"reason": a["reason"], "idx": i, "related": None if rel is None else [where.locate(x[1]) for x in rel],
                    "annotation": a.get("annotation")})
    return out


def indexed(reports):
    return [{"reason": a["reason"], "idx": [int(x) for x in a["idx"]],
             "related": None if a.get("related") is None else [[int(y) for y in x] for x in a["related"]],
             "annotation": a.get("annotation")} for a in reports]


def same_reports(a, b, led=None):
    """the same complaints; where a dependency chooses among several wordings at random, either"""
    if len(a) != len(b):
        return f"{len(a)} vs {len(b)} reports"
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            if {m: v for m, v in x.items() if m != "reason"} == {m: v for m, v in y.items() if m != "reason"} and led is not None \
                    and k < len(led.errors) and len(led.errors[k].reasons) > 1 \
                    and {compare.norm_numbers(x["reason"]), compare.norm_numbers(y["reason"])} <= {compare.norm_numbers(r) for r in led.errors[k].reasons}:
                continue
            return f"report {k}: {x} vs {y}"
    return None


def same_outcome(a, b, where_a=None, where_b=None, led=None):
    """two answers to booking the same directives"""
    if ("result" in a) != ("result" in b):
        return f"{show(a)[:300]} vs {show(b)[:300]}"
    if "result" in a:
        return differing(canon(a["result"]), canon(b["result"]))
    ea, eb = a["error"], b["error"]
    if ea["message"] != eb["message"]:
        return f"message {ea['message']!r} vs {eb['message']!r}"
    ra = index_of(ea["data"], where_a) if where_a else indexed(ea["data"])
    rb = index_of(eb["data"], where_b) if where_b else indexed(eb["data"])
    return same_reports(ra, rb, led)


# ------------------------------------------------------------- C12: the round trip

def kind_roundtrip(ctx, rng, res):
    """what the service reports as parsed may be handed back to be booked, with the same outcome as booking the file"""
    prof = rng.choice([B.FIELDS, B.ERRS, B.LOTS, B.PAD, B.INTERP, B.BAL])(rng)
    try:
        L = B.make(rng, prof)
    except (model.Uncertain, model.KnownDefect, Overflow):
        res.inconclusive += 1
        return
    run0 = ctx.ask(L.text, "parser.directives")
    if not res.served(run0):
        res.files["ledger"] = L.text
        return
    a0 = run0.responses()[0]
    if "result" not in a0:
        res.viol("parse", f"not parsed: {show(a0)[:500]}", ledger=L.text)
        return
    parsed = a0["result"]["directives"]
    variants = [("verbatim", run0.raw[0].decode()[run0.raw[0].decode().index('"directives":') + 13:].rsplit(',"warnings"', 1)[0])]
    em = Emit(rng, escapes=PROSE, numbers=0.3)
    variants.append(("rewritten", em([with_extras(with_nulls(d, rng), rng) for d in parsed])))
    strip = copy.deepcopy(parsed)
    for d in strip:
        d.pop("span", None)
        for p in d.get("postings") or ():
            p.pop("span", None)
    variants.append(("unspanned", dumps_num(strip)))
    mixed = copy.deepcopy(parsed)
    for d in mixed:
        for x in [d] + list(d.get("postings") or ()):
            if rng.random() < 0.3:
                x.pop("span", None)
    variants.append(("mixed", dumps_num(mixed)))
    variants.append(("emptied", dumps_num([with_empties(d, rng) for d in strip])))
    lines = [req("book", 0)] + ['{"jsonrpc":"2.0","id":%d,"method":"book","params":%s}' % (k + 1, v) for k, (_, v) in enumerate(variants)] + [req("book", 9)]
    if rng.random() < 0.5:
        lines[1] = '{"params":%s,"method":"book","id":1,"jsonrpc":"2.0"}' % variants[0][1]
    run = ctx.serve(run0.path, lines)
    res.case((B.profile_sig(L), "rt"))
    B.observe(res, L)
    if res.sample is None:
        res.sample = {"ledger": L.text[:800], "variants": [n for n, _ in variants]}
    if not res.served(run):
        res.files["ledger"] = L.text
        return
    rs = run.responses()
    for k, (name, v) in enumerate(variants):
        res.obs("roundtrip-" + name)
        a = rs[k + 1]
        if "error" in a and lit(a["error"].get("code")) != "3":
            res.viol("refused", f"{name}: parsed directives handed back are refused: {show(a)[:600]}")
        else:
            d = same_outcome(rs[0], sans_empties(a) if name == "emptied" else a, L.where, None, L.led)
            if d:
                res.viol("differs", f"{name}: {d}")
        if res.viols:
            res.files["ledger"] = L.text
            res.files["params"] = v
            return
    d = same_outcome(rs[0], rs[-1], L.where, L.where, L.led)
    if d:
        res.viol("disturbed", f"booking the file again after booking submitted directives: {d}", ledger=L.text)


def dumps_num(x):
    """JSON with numbers as they came"""
    if isinstance(x, Decimal):
        return lit(x)
    if isinstance(x, dict):
        return "{" + ",".join(json.dumps(k, ensure_ascii=False) + ":" + dumps_num(v) for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(dumps_num(v) for v in x) + "]"
    return json.dumps(x, ensure_ascii=False)


def kind_submitted(ctx, rng, res):
    """directives that come from no file, while the file holds something else altogether"""
    try:
        L = B.make(rng, rng.choice([B.FIELDS, B.ERRS, B.LOTS, B.PAD])(rng))
        M = B.make(rng, B.FIELDS(rng), order=None)
    except (model.Uncertain, model.KnownDefect, Overflow):
        res.inconclusive += 1
        return
    if rng.random() < 0.2:
        L = B.blanked(rng, L)
    if rng.random() < 0.06:
        # nothing submitted is nothing booked
        L = B.finish(rng, [], L.opts, L.optlines)
        res.obs("submitted-nothing")
    # L is submitted to a service of a file with L's options but M's directives
    text, spans = gen.render(M.ds, L.optlines)
    em = Emit(rng, escapes=PROSE, numbers=0.3)
    params = em([with_extras(with_nulls(d, rng, 0.2), rng) for d in L.ds])
    run = ctx.ask(text, '{"jsonrpc":"2.0","id":1,"method":"book","params":%s}' % params)
    res.case((B.profile_sig(L), "sub"))
    if res.served(run):
        diffs = compare.outcome(L.led, run.responses()[0], None)
        for d in B.first(diffs):
            res.viol("submitted:" + d.tag, repr(d))
    res.obs("submitted")
    if res.viols:
        res.files.update(ledger=text, params=params)


def kind_raw_roundtrip(ctx, rng, res):
    """directives of any shape the language has are at least understood when handed back"""
    ds, text, spans = raw_ledger(rng, n=rng.choice([1, 4, 10]))
    run0 = ctx.ask(text, "parser.directives", "book")
    def beyond(run):
        # arithmetic beyond 28 digits: a recorded finding.  Which of several faults of a
        # transaction is met first varies, so either run may die of it alone
        if b"rust_decimal" in run.err:
            res.viols.clear()
            res.inconclusive += 1
        res.files["ledger"] = text

    if not res.served(run0):
        beyond(run0)
        return
    a0, a1 = run0.responses()
    if "result" not in a0:
        res.viol("parse", f"not parsed: {show(a0)[:500]}", ledger=text)
        return
    parsed = a0["result"]["directives"]
    params = Emit(rng, escapes=PROSE, numbers=0.2)([with_nulls(d, rng, 0.2) for d in parsed])
    run = ctx.serve(run0.path, ['{"jsonrpc":"2.0","id":1,"method":"book","params":%s}' % params])
    res.case(sig_raw(ds))
    res.obs("roundtrip-raw")
    if res.served(run):
        a = run.responses()[0]
        if "error" in a and lit(a["error"].get("code")) != "3":
            res.viol("refused", f"parsed directives handed back are refused: {show(a)[:600]}")
        elif "result" in a or "result" in a1:
            d = same_outcome(a1, a, compare.Where(text, spans, ds), None)
            if d:
                res.viol("differs", d)
        else:
            w = compare.Where(text, spans, ds)
            # which of several faults of one directive is complained of may be chosen at random by a dependency
            x = [r["idx"] and r["idx"][0] for r in index_of(a1["error"]["data"], w)]
            y = [r["idx"][0] for r in indexed(a["error"]["data"])]
            if x != y:
                res.viol("differs", f"complaints about {x} vs {y}")
    else:
        beyond(run)
    if res.viols:
        res.files.update(ledger=text, params=params)


def probe_escaped_names(ctx, res):
    run = ctx.ask("2020-01-01 open Assets:A\n",
                  r'{"jsonrpc":"2.0","id":1,"method":"book","params":[{"date":"2020-01-01","dct":"open","acc":"Assets\u003aB"}]}')
    if not res.served(run):
        return "died"
    a = run.responses()[0]
    if "result" in a and a["result"]["directives"][0]["acc"] == "Assets:B":
        return None
    if "error" in a and lit(a["error"]["code"]) == "-32700" and "borrowed" in a["error"]["message"]:
        return "known"
    return show(a)
