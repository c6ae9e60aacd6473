"""Checks that drive the booking service with generated ledgers and judge what it answers."""
import copy
import re
from decimal import Decimal

from . import compare, gen, model
from .compare import lit
from .core import Check, dumps, loads, req
from .dec import D, ZERO, Overflow, near


class Ledger:
    """a generated ledger with everything the oracles need"""

    def __init__(self, ds, opts, optlines, text, spans, led, order=None):
        self.ds, self.opts, self.optlines, self.text, self.spans, self.led = ds, opts, optlines, text, spans, led
        self.where = compare.Where(text, spans, ds)


def size(rng):
    k = rng.random()
    return rng.choice([3, 6, 10, 14, 14, 18]) if k < 0.87 else 40 if k < 0.97 else 130 if k < 0.997 else 400


def make(rng, prof, plain=None, order=None):
    prof = dict(prof)
    prof.setdefault("n", size(rng))
    if prof.get("pool") == "few":
        prof["accounts"] = rng.sample(gen.ACCOUNTS, rng.choice([2, 3, 4]))
    if prof.get("pool") == "random" or (prof.get("pool") is None and "accounts" not in prof and rng.random() < 0.15):
        prof["accounts"] = gen.random_accounts(rng, rng.randrange(4, 14))
    g = gen.Gen(rng, **prof).build()
    return finish(rng, g.ds, g.opts, g.optlines, plain, order)


def finish(rng, ds, opts, optlines, plain=None, order=None):
    led = model.Ledger(opts)
    led.run(ds)
    if order is None and rng.random() < 0.3:
        order = gen.interleave(ds, rng)
    st = gen.Style(rng, plain=rng.random() < 0.5 if plain is None else plain)
    text, spans = gen.render(ds, optlines, st, order)
    return Ledger(ds, opts, optlines, text, spans, led)


def blanked(rng, L):
    """the same ledger with payees and narrations that are there but empty; the beanfile has no such thing (an empty one is
    none), so these are for submitting"""
    ds = []
    for d in L.ds:
        d = dict(d)
        if d["dct"] == "txn":
            for k in ("payee", "narration"):
                if rng.random() < 0.4:
                    d[k] = rng.choice(["", "", " "])
        ds.append(d)
    return finish(rng, ds, L.opts, L.optlines)


def first(diffs):
    """the root divergence: everything after it may be its consequence"""
    if not diffs:
        return []
    if any(d.idx is None for d in diffs):
        return [d for d in diffs if d.idx is None]
    lo = min(d.idx for d in diffs)
    return [d for d in diffs if d.idx == lo]


def profile_sig(L):
    ev = sorted((k, min(v, 3)) for k, v in L.led.stats.items())
    return (tuple(ev), tuple(sorted(L.opts)), tuple(r.kind for r in L.led.errors))


def observe(res, L):
    for k, v in L.led.stats.items():
        res.obs(k, v)
    for e in L.led.errors:
        if e.kind in ("pad-unused",):
            res.obs("err:" + e.kind)
    res.obs("directives", len(L.ds))
    res.obs("ledgers-refused" if L.led.errors else "ledgers-booked")


def shrink(ctx, L, via, bad, budget=70):
    """a smaller ledger on which the same judgement fails"""
    ds = L.ds
    best = None

    def attempt(keep):
        try:
            l2 = finish(__import__("random").Random(0), keep, L.opts, L.optlines, plain=True, order=range(len(keep)))
        except (model.Uncertain, model.KnownDefect, Overflow):
            return None
        except KeyError:
            return None
        try:
            return l2 if bad(l2) else None
        except Exception:
            return None
    step = max(1, len(ds) // 2)
    cur = list(ds)
    l0 = attempt(cur)
    if l0 is None:
        return None
    best = l0
    while budget > 0:
        i, progress = 0, False
        while i < len(cur) and budget > 0:
            keep = cur[:i] + cur[i + step:]
            budget -= 1
            l2 = attempt(keep) if keep else None
            if l2 is not None:
                cur, best, progress = keep, l2, True
            else:
                i += step
        if step == 1 and not progress:
            break
        step = max(1, step // 2)
    return best


def booking_kind(prof, own, monitors=(), params=0.25, nontrivial=None, only_ok=False):
    own = re.compile(own)

    def one(ctx, L, via):
        if via == "params":
            run = ctx.ask(L.text, ("book", {"params": L.ds}))
        else:
            run = ctx.ask(L.text, "book")
        return run

    def kind(ctx, rng, res):
        p = prof(rng) if callable(prof) else prof
        try:
            L = make(rng, p)
        except (model.Uncertain, model.KnownDefect, Overflow):
            res.inconclusive += 1
            return
        via = "params" if rng.random() < params else "file"
        if via == "params" and rng.random() < 0.2:
            L = blanked(rng, L)
            res.obs("blank-payees")
        run = one(ctx, L, via)
        res.case(profile_sig(L), nontrivial(L) if nontrivial else True)
        observe(res, L)
        res.obs("via-" + via)
        if res.sample is None:
            res.sample = {"ledger": L.text[:1200], "via": via, "expected": "booked" if not L.led.errors else repr(L.led.errors[:3])}
        if not res.served(run):
            res.files["ledger"] = L.text
            return
        resp = run.responses()[0]
        diffs = compare.outcome(L.led, resp, None if via == "params" else L.where)
        roots = [d for d in first(diffs) if own.search(d.tag)]
        if diffs and not roots:
            res.obs("divergence-of-another-property")
            res.inconclusive += 1
        for d in roots:
            res.viol(d.tag, repr(d))
        if "result" in resp and not diffs:
            for m in monitors:
                m(L, resp["result"]["directives"], res)
        if res.viols:
            res.files["ledger"] = L.text
            if via == "params":
                res.files["params"] = dumps(L.ds)

            def bad(l2):
                r2 = one(ctx, l2, via)
                if r2.hung or len(r2.raw) != 1:
                    return False
                d2 = first(compare.outcome(l2.led, r2.responses()[0], None if via == "params" else l2.where))
                return any(own.search(d.tag) for d in d2)
            s = shrink(ctx, L, via, bad) if roots else None
            if s is not None:
                r2 = one(ctx, s, via)
                res.files["shrunk-ledger"] = s.text
                res.files["shrunk-answer"] = r2.out.decode(errors="replace")[:4000]
                res.files["shrunk-expected"] = repr(s.led.errors) if s.led.errors else compare.show(s.led.out)[:4000]
                res.files["shrunk-differences"] = repr(first(compare.outcome(
                    s.led, r2.responses()[0], None if via == "params" else s.where)))[:3000]
    return kind


# ------------------------------------------------------------- monitors over booked output alone

def posting_weights(p):
    """the currency a posting is weighed in, and the weights it may have been given"""
    u = D.of(p["units"])
    c = p.get("cost") or p.get("price")
    if c is None:
        return p["cur"], [u]
    per = D.of(c["per-unit"])
    w = (u * per).rescaled(model.sane(u.s, per.s))
    ws = [w]
    t = c.get("total")
    if t is not None:
        t = D.of(t)
        # the total as stated, or the product: whichever was given
        ws = [t, w] if t.sign() == u.sign() else [-t, w] if u.sign() else [w, t]
        if ws[0] == ws[1] and ws[0].s == ws[1].s:
            ws = [w]
    return c["cur"], ws


def mon_balanced(L, out, res):
    """every booked transaction sums to nothing in each currency, as exactly as its amounts are written"""
    tol = model.Tol(L.opts)
    for d in out:
        if d["dct"] != "txn" or d["flag"] == "'P" and all("idx" not in p for p in d["postings"]):
            continue
        bycur, slack = {}, {}
        src = L.ds[int(d["idx"])]["postings"]
        for p in d["postings"]:
            cur, ws = posting_weights(p)
            bycur.setdefault(cur, []).append(ws)
            c = p.get("cost") or p.get("price")
            if c is not None and src[int(p["idx"])].get("units") is None:
                # units worked out from a price are rounded, which leaves up to half a unit's last place at that price
                # (recorded as a finding: this may exceed the tolerance)
                slack[cur] = slack.get(cur, Decimal(0)) + abs(Decimal(c["per-unit"])).scaleb(-D.of(p["units"]).s)
        for cur, opts in bycur.items():
            combos = [[]]
            for ws in opts:
                combos = [c + [w] for c in combos for w in ws][:256]
            res.obs("balance-monitored")
            best = None
            for c in combos:
                t = abs(sum((w.dec() for w in c), Decimal(0)))
                scales = [w.s for w in c if w.s > 0]
                if scales:
                    ok = t < Decimal(1).scaleb(-min(scales)) * tol.multiplier().dec()
                else:
                    lim = tol.default.get(cur, tol.fallback)
                    ok = lim is not None and t <= lim.dec()
                # units worked out by division are rounded to 28 digits
                if ok or t <= slack.get(cur, 0) + max((abs(w.dec()) for w in c), default=0) * Decimal("1e-20"):
                    break
                best = t if best is None else min(best, t)
            else:
                res.viol("unbalanced", f"booked transaction {lit(d['idx'])} leaves {best} {cur}")


def soundly(was, moves):
    """in some order of the movements (the booking takes those of one currency first), nothing crosses zero: what has been sold
    out may then be sold short"""
    # in the order of posting, as it mostly is
    x = was
    for u, inferred in moves:
        if x * (x + u) < 0 and not inferred:
            break
        x += u
    else:
        return True
    if len(moves) > 7:
        return was * (was + sum(u for u, _ in moves)) >= 0 or any(i for _, i in moves)
    seen = set()

    def go(x, left):
        if not left:
            return True
        if left in seen:
            return False
        seen.add(left)
        return any(go(x + moves[j][0], left - {j}) for j in left if x * (x + moves[j][0]) >= 0 or moves[j][1])
    return go(was, frozenset(range(len(moves))))


def mon_lots(L, out, res):
    """replaying booked postings, no lot changes sign except where the account's booking is NONE"""
    method = {}
    lots = {}
    for d in out:
        if d["dct"] == "open":
            method[d["acc"]] = d.get("booking") or L.opts.get("booking-method") or "strict"
        if d["dct"] != "txn":
            continue
        moves = {}
        for p in d["postings"]:
            c = p.get("cost")
            if c is None or method.get(p["acc"]) == "none":
                continue
            # an amount left to be inferred always opens a lot; it is not a reduction of one
            j = p.get("idx")
            inferred = j is not None and L.ds[int(d["idx"])]["postings"][int(j)].get("units") is None
            k = (p["acc"], p["cur"], c["date"], str(Decimal(c["per-unit"]).normalize()), c["cur"], c.get("label"), bool(c.get("merge")))
            moves.setdefault(k, []).append((Decimal(p["units"]), inferred))
            res.obs("lot-movement-monitored")
        for k, ms in moves.items():
            was = lots.get(k, Decimal(0))
            now = lots[k] = was + sum(u for u, _ in ms)
            if not soundly(was, ms):
                res.viol("oversold", f"directive {lit(d['idx'])}: lot {k} goes from {was} to {now} by {[str(u) for u, _ in ms]}")
        # each reduction is also bounded by the holdings of its commodity


def mon_balances(L, out, res):
    """each balance in the booked output agrees with the booked postings before it"""
    held = {}
    tol = model.Tol(L.opts)
    pend = {}

    def apply(ps):
        for p in ps:
            k = (p["acc"], p["cur"])
            held[k] = held.get(k, Decimal(0)) + Decimal(p["units"])

    for d in out:
        src = L.ds[int(d["idx"])]
        if d["dct"] == "txn":
            if src["dct"] == "pad":
                # takes effect by the next balance of the padded account
                pend[src["acc"]] = d["postings"]
            else:
                apply(d["postings"])
        elif d["dct"] == "balance":
            apply(pend.pop(d["acc"], []))
            t = sum((v for (a, c), v in held.items() if c == d["cur"] and model.is_sub(d["acc"], a)), Decimal(0))
            u = D.of(d["units"])
            lim = d.get("tolerance")
            if lim is None:
                lim = (Decimal(1).scaleb(-u.s) * 2 * tol.multiplier().dec()) if u.s else Decimal(0)
            # sums are kept to 28 digits
            lim = Decimal(lim) + max(abs(t), abs(u.dec())) * Decimal("1e-22")
            res.obs("balance-assertion-monitored")
            if abs(u.dec() - t) > lim:
                res.viol("false-balance", f"booked balance {lit(d['idx'])} {d['acc']} {lit(d['units'])} {d['cur']}, but the postings amount to {t}")


def mon_open(L, out, res):
    """no posting outside its account's life, or in a currency its account excludes"""
    opened, closed = {}, set()
    for d in out:
        t = d["dct"]
        if t == "open":
            if d["acc"] in opened:
                res.viol("reopened", f"{d['acc']} opened twice in the booked output")
            opened[d["acc"]] = set(d.get("currencies") or ())
        elif t == "close":
            if d["acc"] not in opened or d["acc"] in closed:
                res.viol("close", f"{d['acc']} closed while not open")
            closed.add(d["acc"])
        elif t == "txn":
            for p in d["postings"]:
                a = p["acc"]
                res.obs("posting-monitored")
                if "idx" in p:
                    if a not in opened or a in closed:
                        res.viol("not-open", f"directive {lit(d['idx'])} posts to {a}, which is not open")
                if opened.get(a) and p["cur"] not in opened[a]:
                    res.viol("currency", f"directive {lit(d['idx'])} posts {p['cur']} to {a}, which allows {opened[a]}")
        elif t in ("balance", "pad"):
            for a in [d["acc"]] + ([d["source"]] if t == "pad" else []):
                if a not in opened or a in closed:
                    res.viol("not-open", f"{t} {lit(d['idx'])} concerns {a}, which is not open")


def mon_order(L, out, res):
    """every directive appears exactly once, in order, a pad followed by its transaction"""
    exp = []
    for i, d in enumerate(L.ds):
        exp.append(i)
        if d["dct"] == "pad":
            exp.append(i)
    got = [int(d["idx"]) for d in out]
    res.obs("provenance-monitored", len(got))
    if exp != got:
        res.viol("provenance", f"origins {got} for {len(L.ds)} directives")
    for d in out:
        if d["dct"] == "txn" and L.ds[int(d["idx"])]["dct"] == "txn":
            n = len(L.ds[int(d["idx"])]["postings"])
            ids = [int(p["idx"]) for p in d["postings"]]
            if ids != sorted(ids) or set(ids) != set(range(n)):
                res.viol("provenance", f"directive {lit(d['idx'])}: postings of origins {ids}, expected each of {n}")


def mon_given(L, out, res):
    """whatever the user wrote is kept: only what was left out is filled in"""
    tol = model.Tol(L.opts)
    for d in out:
        src = L.ds[int(d["idx"])]
        if d["dct"] != "txn" or src["dct"] != "txn":
            continue
        sums = {}
        for p in d["postings"]:
            sums.setdefault(int(p["idx"]), []).append(p)
        for j, s in enumerate(src["postings"]):
            ps = sums.get(j, [])
            if not ps:
                continue
            res.obs("given-monitored")
            if s.get("units") is not None and sum(Decimal(p["units"]) for p in ps) != Decimal(s["units"]):
                if len(ps) > 1 and tol.residual([D.of(p["units"]) for p in ps] + [-D.of(s["units"])], s["cur"]) is None:
                    # selling everything, within tolerance, closes the lots exactly
                    res.obs("closed-within-tolerance")
                    continue
                res.viol("given-units", f"posting {j} of {lit(d['idx'])} written with {s['units']}, booked as {[lit(p['units']) for p in ps]}")
            for p in ps:
                if s.get("cur") is not None and p["cur"] != s["cur"]:
                    res.viol("given-cur", f"posting {j} of {lit(d['idx'])} written in {s['cur']}, booked in {p['cur']}")
                if p["acc"] != s["acc"]:
                    res.viol("given-acc", f"posting {j} of {lit(d['idx'])} written to {s['acc']}, booked to {p['acc']}")


# ------------------------------------------------------------- profiles

def P(**kw):
    def f(rng):
        d = {}
        for k, v in kw.items():
            d[k] = rng.choice(v) if isinstance(v, list) else v
        return d
    return f


QUIET = dict(pad=0.0, passthrough=0.2, lifecycle=0.15, curs=0.1)

BALANCED = P(err=[0.1, 0.4, 0.4], junk=0.3, balance=0.2, meta=0.02, exprs=0.1, **QUIET)
INTERP = P(err=[0, 0.3], interp=3.0, conv=3.0, junk=1.0, balance=0.3, lots=0.8, meta=0.02, **QUIET)
ONE = ["Assets:Inv", "Assets:Cash", "Income:Gains"]


def LOTS(rng):
    m = rng.choice([["strict"], ["strict-with-size"], ["fifo"], ["lifo"], ["hifo"], ["none"], ["average"], gen.METHODS])
    d = dict(err=rng.choice([0, 0.15, 0.4]), simple=0.15, conv=0.1, lots=3.0, junk=0.05, interp=0.1, balance=0.3,
             pad=0.05, passthrough=0.1, lifecycle=0.1, curs=0.0, allcurs=0.4, meta=0.02, methods=m, exprs=0.02, preopen=1.0,
             n=rng.choice([8, 14, 14, 20, 40]))
    if rng.random() < 0.8:
        d["accounts"] = ONE if rng.random() < 0.6 else ONE + ["Assets:Inv:Broker"]
        d["stock"] = ["AAPL"] if rng.random() < 0.6 else ["AAPL", "GOOG"]
    if rng.random() < 0.12:
        d.update(hoard=4.0, lots=1.0, n=rng.choice([5, 8]), methods=rng.choice([["fifo"], ["lifo"], ["hifo"], ["strict"], ["none"], ["fifo", "lifo", "hifo"]]))
    return d


HOLD = LOTS
KEPT = P(err=[0.6, 0.9], badacc=[0.1, 0.3], curs=[0.0, 0.5], balance=3.0, pad=0.1, passthrough=0.05, junk=0.3, lifecycle=0.4, lots=0.6, interp=0.5, preopen=[0.5, 0.8],
         meta=0.0, exprs=0.0)
LONG = P(err=[0, 0, 0.3], many=6.0, simple=0.2, interp=0.1, conv=0.1, lots=0.2, junk=0.05, balance=0.5, meta=0.02, pad=0.05, passthrough=0.05, lifecycle=0.1, exprs=0.0,
         n=[4, 8])
LONGERR = P(err=1.0, badacc=[0.0, 0.0, 0.1], many=6.0, simple=0.2, interp=0.1, conv=0.1, lots=0.3, junk=0.2, balance=[0.5, 3.0], meta=0.02, pad=[0.05, 0.5], passthrough=0.05,
            lifecycle=0.1, exprs=0.0, n=[3, 5, 8], pool=[None, "few", "few"], longest=[300, 300, 900])
LIFE = P(err=[0, 0.6, 0.9], badacc=[0.0, 0.15, 0.3], lifecycle=4.0, preopen=[0.3, 0.5], pad=0.8, balance=0.8, junk=0.1,
         lots=0.4, conv=0.3, passthrough=0.3, curs=0.1, meta=0.05, exprs=0.02)
CURS = P(err=[0, 0.6], curs=0.9, pad=1.0, balance=1.2, junk=0.2, lifecycle=0.2, passthrough=0.2, meta=0.05, exprs=0.02)
BAL = P(err=[0, 0.5, 0.8], balance=5.0, pad=[0, 0.5], pool=["random", None, "random"], lots=0.4, conv=0.5, junk=0.05,
        passthrough=0.1, lifecycle=0.1, curs=0.05, meta=0.02, exprs=0.05)
PAD = P(err=[0, 0.4], balance=1.5, pad=4.0, pool=["random", None, None], lots=0.4, conv=0.4, junk=0.05, passthrough=0.2,
        lifecycle=0.4, curs=[0.0, 0.2], meta=[0.0, 0.3], exprs=0.02)
FIELDS = P(err=0, meta=0.8, passthrough=2.0, pad=1.0, balance=1.0, junk=0.1, lots=1.0, lifecycle=0.6)
ERRS = P(err=1.0, badacc=[0.1, 0.3], lifecycle=1.5, curs=[0.2, 0.6], junk=1.0, meta=0.2, pad=1.2, balance=1.5, passthrough=0.5)
DIAG = P(err=1.0, balance=5.0, pad=0.3, pool=["random", None, "random"], lots=0.5, conv=0.5, junk=0.05, passthrough=0.3,
         lifecycle=0.1, curs=0.02, meta=0.05, exprs=0.02)
PREC = P(err=[0, 0, 0.3], big=0.9, exprs=0.3, balance=1.5, pad=0.8, lots=0.3, conv=0.4, junk=0.1, passthrough=1.0,
         lifecycle=0.1, curs=0.02, meta=0.3)

BOOKING = r"(missing|extra|kind|reason):booking"


# ---------------------------------------------------------------- recorded findings, on their exact inputs

def _book(ctx, res, text):
    run = ctx.ask(text, "book")
    if not res.served(run):
        return None, "died"
    a = run.responses()[0]
    return a, None


def _reasons(a):
    return [r.get("reason") for r in a["error"].get("data") or []] if "error" in a else None


def probe_opposite_total(ctx, res):
    text = ("2020-01-01 open Assets:Cash\n2020-01-01 open Assets:Bank\n"
            "2020-01-02 *\n  Assets:Cash  -10 USD @@ 20 GBP\n  Assets:Bank  -20 GBP\n")
    a, bad = _book(ctx, res, text)
    if bad:
        return bad
    if "error" in a:
        return None                       # refused, one way or another
    p = a["result"]["directives"][2]["postings"]
    price = p[0].get("price", {})
    if p[0]["units"] == -10 and price.get("total") == 20 and price.get("per-unit") == 2 and p[1]["units"] == -20:
        return "known"                    # -10 at 2 is -20, with -20: does not balance
    if price.get("total") == -20 or price.get("per-unit") == -2:
        return None
    return repr(p)


EXACT = 'option "inferred_tolerance_multiplier" "0"\n2020-01-01 open Assets:Inv\n2020-01-01 open Assets:Cash\n'


def probe_zero_multiplier(ctx, res):
    a, bad = _book(ctx, res, EXACT + "2020-01-02 *\n  Assets:Inv  1.50 GBP\n  Assets:Cash  -1.50 GBP\n")
    if bad:
        return bad
    if _reasons(a) == ["unbalanced transaction with residual -0.00 GBP"] or _reasons(a) == ["unbalanced transaction with residual 0.00 GBP"]:
        return "known"
    return None if "result" in a else repr(_reasons(a))


def probe_zero_multiplier_all(ctx, res):
    text = EXACT + "".join(f"2020-01-0{d} *\n  Assets:Inv  1.5 AAPL {{{c} USD}}\n  Assets:Cash\n" for d, c in ((2, 10), (3, 20)))
    a, bad = _book(ctx, res, text + "2020-01-04 *\n  Assets:Inv  -3.0 AAPL {}\n  Assets:Cash\n")
    if bad:
        return bad
    if _reasons(a) == ["ambiguous matches on posting 0"]:
        return "known"
    return None if "result" in a else repr(_reasons(a))


def probe_rounded_units(ctx, res):
    text = ('option "inferred_tolerance_multiplier" "0"\n2020-01-01 open Assets:Inv\n2020-01-01 open Assets:Cash\n'
            "2020-01-02 *\n  Assets:Inv  GOOG @ 371 GBP\n  Assets:Cash  -162.04 GBP\n")
    a, bad = _book(ctx, res, text)
    if bad:
        return bad
    if "error" in a:
        return None
    p = a["result"]["directives"][2]["postings"]
    u, price = p[0]["units"], p[0].get("price", {})
    if u == B_D("0.44") and price.get("per-unit") == 371 and price.get("total") == B_D("163.24"):
        return "known"
    if abs(u * 371 - B_D("162.04")) < B_D("0.0001"):
        return None
    return repr(p)


def probe_foreign_lot(ctx, res):
    text = ('2020-01-01 open Assets:Inv "STRICT"\n2020-01-01 open Assets:Cash\n'
            "2020-01-02 *\n  Assets:Inv  10 AAPL {21.8 USD}\n  Assets:Cash  -218 USD\n"
            "2020-01-03 *\n  Assets:Inv  -10 AAPL {21.8}\n  Assets:Cash  218 GBP\n")
    a, bad = _book(ctx, res, text)
    if bad:
        return bad
    if "error" in a:
        return None
    p = a["result"]["directives"][3]["postings"]
    if p[0].get("cost", {}).get("cur") == "USD" and p[1]["cur"] == "GBP":
        return "known"
    return repr(p)


def probe_retagged(ctx, res):
    text = ('2020-01-01 open Assets:Inv "FIFO"\n2020-01-01 open Assets:Cash\n'
            "2020-01-02 *\n  Assets:Inv  5 AAPL {10 USD}\n  Assets:Cash  -50 USD\n"
            "2020-01-03 *\n  Assets:Inv  7 GOOG {20 USD}\n  Assets:Cash  -140 USD\n"
            "2020-01-04 *\n  Assets:Inv  5 AAPL {11 USD}\n  Assets:Cash  -55 USD\n"
            "2020-01-05 *\n  Assets:Inv  -7 AAPL {}\n  Assets:Cash\n"
            "2020-01-06 *\n  Assets:Inv  -3 AAPL {}\n  Assets:Cash\n"
            "2020-01-07 *\n  Assets:Inv  -7 GOOG {}\n  Assets:Cash\n")
    a, bad = _book(ctx, res, text)
    if bad:
        return bad
    if "result" in a:
        ps = [[(p["units"], p["cur"]) for p in d["postings"]] for d in a["result"]["directives"][5:]]
        want = [[(-5, "AAPL"), (-2, "AAPL"), (72, "USD")], [(-3, "AAPL"), (33, "USD")], [(-7, "GOOG"), (140, "USD")]]
        return None if ps == want else repr(ps)
    if _reasons(a) == ["no position matches on posting 0"]:
        return "known"
    return repr(a)


from decimal import Decimal as B_D  # noqa: E402
