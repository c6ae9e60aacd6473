"""Compare what the service answered with what the model predicts; every difference is tagged
by the aspect of behaviour it concerns, so that each check judges its own property."""
import re
from decimal import Decimal

from .dec import D, near

DCT_NAME = {"txn": "transaction"}
SETS = ("tags", "links", "currencies")


class Diff:
    __slots__ = ("tag", "idx", "msg")

    def __init__(self, tag, idx, msg):
        self.tag, self.idx, self.msg = tag, idx, msg

    def __repr__(self):
        return f"{self.tag} at {self.idx}: {self.msg}"


def lit(x):
    return getattr(x, "lit", str(x))


def same_num(exp, act):
    """the same number to the last digit, trailing zeros included"""
    if isinstance(act, bool) or not isinstance(act, Decimal):
        return False
    if isinstance(exp, D):
        if exp.approx:
            return near(exp, D.of(act))
        e = str(exp)
    else:
        e = str(D.of(exp))
    a = lit(act)
    if e == a:
        return True
    # a zero has no sign
    return Decimal(e) == 0 and Decimal(a) == 0 and e.lstrip("-") == a.lstrip("-")


def same(exp, act):
    if isinstance(exp, (D, Decimal)):
        return same_num(exp, act)
    if isinstance(exp, bool) or exp is None or isinstance(exp, str):
        return type(exp) is type(act) and exp == act
    if isinstance(exp, int):
        return isinstance(act, Decimal) and lit(act) == str(exp)
    if isinstance(exp, dict):
        return isinstance(act, dict) and set(exp) == set(act) and all(same(v, act[k]) for k, v in exp.items())
    if isinstance(exp, (list, tuple)):
        return isinstance(act, list) and len(exp) == len(act) and all(same(a, b) for a, b in zip(exp, act))
    raise TypeError(repr(exp))


def fields(exp, act, tag, idx, diffs, skip=()):
    """field by field"""
    for k in exp:
        if k in skip:
            continue
        if k not in act:
            diffs.append(Diff(f"{tag}.{k}", idx, f"missing, expected {show(exp[k])}"))
            continue
        e, a = exp[k], act[k]
        if k in SETS:
            if not (isinstance(a, list) and all(isinstance(x, str) for x in a) and sorted(a) == sorted(e)):
                diffs.append(Diff(f"{tag}.{k}", idx, f"expected {show(e)}, got {show(a)}"))
        elif isinstance(e, dict) and k in ("cost", "price", "cost-spec", "price-spec") and isinstance(a, dict):
            fields(e, a, f"{tag}.{k}", idx, diffs)
        elif not (numeric(e, a) if tag == "pad-txn.posting" and k == "units" else same(e, a)):
            diffs.append(Diff(f"{tag}.{k}", idx, f"expected {show(e)}, got {show(a)}"))
    for k in act:
        if k not in exp and k not in skip:
            diffs.append(Diff(f"{tag}.{k}", idx, f"unexpected {show(act[k])}"))


def show(x):
    if isinstance(x, (D,)):
        return str(x)
    if isinstance(x, Decimal):
        return lit(x)
    if isinstance(x, dict):
        return "{" + ", ".join(f"{k}: {show(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(map(show, x)) + "]"
    return repr(x)


def booked(exp, act):
    """booked directives"""
    diffs = []
    if len(exp) != len(act):
        ei, ai = [e["idx"] for e in exp], [int(a["idx"]) for a in act]
        k = 0
        while k < min(len(ei), len(ai)) and ei[k] == ai[k]:
            k += 1
        diffs.append(Diff("out.count", ei[k] if k < len(ei) else None,
                          f"expected {len(exp)} booked directives, got {len(act)}; origins {ei[k:k+4]} vs {ai[k:k+4]}"))
        return diffs
    for e, a in zip(exp, act):
        i = e["idx"]
        t = e["dct"]
        if lit(a.get("idx", "?")) != str(i):
            diffs.append(Diff("out.order", i, f"expected origin {i}, got {show(a.get('idx'))}"))
            continue
        if a.get("dct") != t:
            diffs.append(Diff("out.kind", i, f"expected {t}, got {a.get('dct')}"))
            continue
        pad = t == "txn" and e.get("flag") == "'P" and all("idx" not in p for p in e["postings"])
        base = "pad-txn" if pad else t
        fields(e, a, base, i, diffs, skip=("idx", "dct", "postings"))
        if t == "txn":
            ep, ap = e["postings"], a.get("postings")
            if not isinstance(ap, list) or len(ep) != len(ap):
                diffs.append(Diff(base + ".postings", i, f"expected {len(ep)} postings {show(ep)}, got {show(ap)}"))
                continue
            for j, (x, y) in enumerate(zip(ep, ap)):
                fields(x, y, base + ".posting", i, diffs)
    return diffs


def norm_numbers(s):
    """numbers in prose, without insignificant zeros: the order of summation may decide those"""
    def one(m):
        t = m.group(0)
        if "." in t:
            t = t.rstrip("0").rstrip(".")
        return "0" if t in ("-0", "") else t
    return re.sub(r"(?<![\w.\-])-?\d+(?:\.\d+)?(?![\w.\-])", one, s)


def numeric(exp, act):
    return isinstance(act, Decimal) and not isinstance(act, bool) and near(D.of(exp), D.of(act))


class Where:
    """what each span of the ledger text denotes"""

    def __init__(self, text, spans, ds, source=0):
        self.b = text.encode() if isinstance(text, str) else text
        self.spans, self.ds, self.source = spans, ds, source
        self.dstart = {s: i for i, (s, e, ps) in spans.items()}
        self.pst = {tuple(p): (i, j) for i, (s, e, ps) in spans.items() for j, p in enumerate(ps)}

    def ok_tail(self, lo, hi):
        """only blanks and comments between lo and hi"""
        return blank(self.b[lo:hi])

    def locate(self, span):
        """directive or posting index, or None"""
        if not (isinstance(span, list) and len(span) == 3):
            return None
        src, s, e = (int(x) for x in span)
        if src != self.source:
            return None
        if (s, e) in self.pst:
            return list(self.pst[(s, e)])
        if s in self.dstart:
            i = self.dstart[s]
            end = self.spans[i][1]
            if e >= end and self.ok_tail(end, e):
                return [i]
        return None

    def label(self, idx):
        if len(idx) == 2:
            return "posting"
        t = self.ds[idx[0]]["dct"]
        return DCT_NAME.get(t, t)


def blank(b):
    for l in b.decode("utf-8", "replace").split("\n"):
        l = l.strip()
        if l and not l.startswith(";") and not l.startswith("*"):
            return False
    return True


def reports(exp, act, where=None):
    """booking error reports; `where` resolves spans (None: reports carry indexes)"""
    diffs = []
    got = []
    for a in act:
        if where is None:
            idx = [int(x) for x in a["idx"]]
        else:
            idx = where.locate(a["span"])
            if idx is None:
                diffs.append(Diff("report.span", None, f"span {show(a['span'])} of {a.get('reason')!r} denotes no directive or posting"))
                return diffs
        got.append(tuple(idx))
    ei = [tuple(r.idx) for r in exp]
    n = min(len(ei), len(got))
    for k in range(n):
        if ei[k] != got[k]:
            break
        compare_report(exp[k], act[k], where, diffs)
    else:
        k = n
    if len(ei) != len(got) or ei[k:] != got[k:]:
        e = exp[k] if k < len(exp) else None
        g = act[k] if k < len(act) else None
        msg = f"report {k}: expected {e!r}, got {show(g) if g else None}; all expected {ei}, got {got}"
        if sorted(ei) == sorted(got):
            diffs.append(Diff("report.order", ei[k][0], msg))
        else:
            # name the report by whichever side lacks its counterpart
            ec, gc = list(ei), list(got)
            for x in got:
                if x in ec:
                    ec.remove(x)
            for x in ei:
                if x in gc:
                    gc.remove(x)
            if ec:
                m = exp[[x for x in range(len(ei)) if ei[x] in ec][0]]
                diffs.append(Diff("missing:" + (m.kind or "?"), m.idx[0], msg))
            if gc:
                x = act[got.index(gc[0])]
                diffs.append(Diff("extra:" + kind_of(x.get("reason", "")), gc[0][0], msg))
    return diffs


def kind_of(reason):
    table = [("account not open", "acc-not-open"), ("account was closed", "acc-closed"),
             ("account already opened", "double-open"), ("currency incompatible", "currency"),
             ("unused, second pad", "pad-second"), ("unused, no balance directive", "pad-unused"),
             ("unused, no balance adjustment", "pad-not-needed"), ("pad source", "pad-self"),
             ("accumulated", "balance"), ("account was already", "acc-closed")]
    for p, k in table:
        if reason.startswith(p):
            return k
    return "booking"


def compare_report(e, a, where, diffs):
    i = e.idx[0]
    k = e.kind
    reason = a.get("reason")
    if not (isinstance(reason, str) and any(norm_numbers(r) == norm_numbers(reason) for r in e.reasons)):
        same_kind = isinstance(reason, str) and kind_of(reason) == k
        diffs.append(Diff(("reason:" if same_kind else "kind:") + k, i, f"expected reason {sorted(e.reasons)}, got {reason!r}"))
    rel = a.get("related")
    exp_rel = None if e.related is None else [list(r) for r in e.related]
    if where is None:
        act_rel = None if rel is None else [[int(y) for y in x] for x in rel]
        if exp_rel != act_rel:
            diffs.append(Diff("related:" + k, i, f"expected related {exp_rel}, got {act_rel}"))
        extra = set(a) - {"reason", "idx", "related", "annotation"}
    else:
        act_rel = None if rel is None else [where.locate(x[1]) for x in rel]
        if exp_rel != act_rel:
            diffs.append(Diff("related:" + k, i, f"expected related {exp_rel}, got {act_rel} {show(rel)}"))
        elif rel is not None:
            for r, x in zip(exp_rel, rel):
                if x[0] != where.label(r):
                    diffs.append(Diff("related:" + k, i, f"related element called {x[0]!r}, is a {where.label(r)}"))
        if a.get("message") != "invalid " + where.label(e.idx):
            diffs.append(Diff("message", i, f"message {a.get('message')!r} for a {where.label(e.idx)}"))
        ctx = a.get("contexts")
        if len(e.idx) == 2:
            ok = isinstance(ctx, list) and len(ctx) == 1 and ctx[0][0] == "transaction" \
                and where.locate(ctx[0][1]) == [e.idx[0]]
        else:
            ok = ctx is None
        if not ok:
            diffs.append(Diff("context", i, f"contexts {show(ctx)} for {e.idx}"))
        extra = set(a) - {"message", "reason", "span", "related", "contexts", "annotation"}
    ann = a.get("annotation")
    if (ann is None) != (e.detail is None):
        diffs.append(Diff("annotation", i, f"annotation {ann!r}, expected {e.detail!r}"))
    elif ann is not None and norm_numbers(" ".join(ann.split())) != norm_numbers(e.detail):
        diffs.append(Diff("annotation", i, f"annotation rows differ: expected {e.detail!r}, got {' '.join(ann.split())!r}"))
    if extra:
        diffs.append(Diff("report.extra", i, f"unexpected keys {extra}"))


def outcome(led, resp, where=None):
    """the whole answer to a booking request: list of Diff"""
    if "result" in resp:
        if led.errors:
            # accepted what should have been refused
            r = min(led.errors, key=lambda r: r.idx)
            return [Diff("missing:" + r.kind, r.idx[0], f"booked without complaint, expected {led.errors[:3]}")]
        if set(resp["result"]) != {"directives"}:
            return [Diff("out.shape", None, f"result keys {list(resp['result'])}")]
        return booked(led.out, resp["result"]["directives"])
    e = resp["error"]
    code = 3 if where is None else 2
    if lit(e.get("code")) != str(code) or "data" not in e:
        return [Diff("error.code", None, f"expected code {code} with reports, got {show(e)[:400]}")]
    if e.get("message") != "Error reports":
        return [Diff("error.message", None, f"message {e.get('message')!r}")]
    if not e["data"]:
        return [Diff("error.empty", None, "failure without a report")]
    return reports(led.errors, e["data"], where)


def raw(exp, act, i, diffs, spans=None):
    """one directive as parsed; exp in wire shape without spans"""
    e = dict(exp)
    ps = e.pop("postings", None)
    for k in ("payee", "narration"):
        pass
    fields(e, act, "raw." + exp["dct"], i, diffs, skip=("span", "postings"))
    if ps is not None:
        ap = act.get("postings")
        if not isinstance(ap, list) or len(ap) != len(ps):
            diffs.append(Diff("raw.postings", i, f"expected {len(ps)} postings, got {show(ap)}"))
            return
        for j, (x, y) in enumerate(zip(ps, ap)):
            fields(x, y, "raw.posting", i, diffs, skip=("span",))
    elif "postings" in act:
        diffs.append(Diff("raw.postings", i, "unexpected postings"))
