"""Checks of how the service treats its sources: options, includes, unreadable input, spans and formatted reports."""
import json
import os
import pathlib
import random
import re
from decimal import Decimal

from . import booking_checks as B, compare, gen, model, wire_checks as W
from .compare import lit, show
from .core import dumps, req
from .dec import D, Overflow

DEAD = (model.Uncertain, model.KnownDefect, Overflow)

# ------------------------------------------------------------- C11: options and plugins

ROOTS = {"Assets": ["Aktiva", "Actifs", "A-1"], "Liabilities": ["Passiva", "Dettes"], "Equity": ["Eigenkapital", "Capitaux"],
         "Income": ["Ertrag", "Revenus", "Zu"], "Expenses": ["Aufwand", "Charges"]}
SUBS = ["Opening-Balances", "Earnings:Previous", "Conversions:Current", "X", "Rounding", "A:B-1:C9", "2020"]
DECS = ["0.5", "1", "0.005", "0", "1.10", "1.000", "12345678901234.000000001", "0.0000000000000000000000000001", "2"]


def gen_options(rng, docdir):
    """[(name, value)], expected parser.options, model options"""
    lines, exp = [], {"name-assets": "Assets", "name-liabilities": "Liabilities", "name-equity": "Equity",
                      "name-income": "Income", "name-expenses": "Expenses"}
    p = rng.choice([0.1, 0.4, 0.9])
    c = lambda: rng.random() < p
    strs = gen.STRINGS + ["", "My Ledger", "x"]
    roots = {}
    for t in ROOTS:
        if c():
            v = rng.choice(ROOTS[t])
            lines.append(("name_" + t.lower(), v))
            exp["name-" + t.lower()] = roots[t] = v
    if c():
        v = rng.choice(strs)
        lines.append(("title", v))
        exp["title"] = v
    for k in ("account_previous_balances", "account_previous_earnings", "account_previous_conversions",
              "account_current_earnings", "account_current_conversions", "account_unrealized_gains", "account_rounding"):
        if c():
            v = rng.choice(SUBS)
            lines.append((k, v))
            exp[k.replace("_", "-")] = v
    if c():
        v = rng.choice(["NOTHING", "XFER", "A'B"])
        lines.append(("conversion_currency", v))
        exp["conversion-currency"] = v
    if c():
        t = {}
        for cur in rng.sample(["USD", "GBP", "NZD", "VT.X-1"], rng.randrange(1, 4)) if rng.random() < 0.8 else ["T%dX" % k for k in rng.sample(range(99), rng.randrange(4, 40))]:
            v = rng.choice(DECS)
            lines.append(("inferred_tolerance_default", f"{cur}:{v}"))
            t[cur] = Decimal(v)
        exp["inferred-tolerance-default"] = t
    if c():
        v = rng.choice(DECS)
        lines.append(("inferred_tolerance_default", f"*:{v}"))
        exp["inferred-tolerance-default-fallback"] = Decimal(v)
    if c():
        v = rng.choice(DECS)
        lines.append(("inferred_tolerance_multiplier", v))
        exp["inferred-tolerance-multiplier"] = Decimal(v)
    if c():
        b = rng.random() < 0.5
        lines.append(("infer_tolerance_from_cost", rng.choice(["true", "TRUE", "True"] if b else ["false", "FALSE", "False"])))
        exp["infer-tolerance-from-cost"] = b
    if c():
        vs = rng.sample(["docs", "a/b", "/abs/docs", "caf\u00e9 dir", "x.y", "./x", "a//b", "a/./b", "a/../b", "../up", "dir/", "/", " pad "] + ["d%d" % k for k in range(40)],
                        rng.randrange(1, 4) if rng.random() < 0.8 else rng.randrange(4, 40))
        # the same directory twice is a mistake
        same = {}
        vs = [same.setdefault(str(pathlib.PurePosixPath(docdir, v)), v) for v in vs if str(pathlib.PurePosixPath(docdir, v)) not in same]
        for v in vs:
            lines.append(("documents", v))
        exp["documents"] = sorted(os.path.join(docdir, v) for v in vs)
    if c():
        vs = rng.sample(["USD", "GBP", "NZD", "A'B"], rng.randrange(1, 4)) if rng.random() < 0.8 else ["C%dX" % k for k in rng.sample(range(99), rng.randrange(4, 40))]
        for v in vs:
            lines.append(("operating_currency", v))
        exp["operating-currency"] = sorted(vs)
    if c():
        b = rng.random() < 0.5
        lines.append(("render_commas", rng.choice(["true", "1", "TRUE"] if b else ["false", "0", "False"])))
        exp["render-commas"] = b
    if c():
        lines.append(("long_string_maxlines", str(rng.randrange(64, 9999))))
    if c():
        m = rng.choice(gen.METHODS)
        lines.append(("booking_method", gen.METHOD_TEXT[m]))
        exp["booking-method"] = m
    if c():
        v = rng.choice(["default", "raw"])
        lines.append(("plugin_processing_mode", v.upper()))
        exp["plugin-processing-mode"] = v
    head = [x for x in lines if x[0].startswith("name_")]
    tail = [x for x in lines if not x[0].startswith("name_")]
    rng.shuffle(tail)
    return head + tail, exp, roots


def judge_options(exp, act, res):
    if not isinstance(act, dict):
        res.viol("options.shape", show(act)[:300])
        return
    for k, e in exp.items():
        a = act.get(k)
        res.obs("option-" + k)
        if k in ("documents", "operating-currency"):
            ok = isinstance(a, list) and sorted(a) == e
        else:
            ok = compare.same(e, a)
        if not ok:
            res.viol("option." + k, f"expected {show(e)}, got {show(a)}")
    for k in act:
        if k not in exp:
            res.viol("option." + k, f"reported as {show(act[k])} though never set")


def gen_plugins(rng):
    ps = []
    for _ in range(rng.choice([0, 1, 2, 5]) if rng.random() < 0.9 else rng.choice([9, 17, 33, 70])):
        ps.append((rng.choice(["limabean.plugins.x", "auto", "beancount.plugins.auto_accounts", "caf\u00e9", "a b", "", " auto", "Auto"]),
                   rng.choice([None, "config", "{:a 1}", " {:a 1} ", "config\n", "\tx", "{\"k\": [1]}", "", " ", "two\nlines", "\u6771"] + ["{:k " + "v" * rng.randrange(1, 3000) + "}"] * (rng.random() < 0.1))))
    return ps


def plugin_lines(ps, rng):
    return ["plugin " + gen.esc(n, rng) + ("" if c is None else " " + gen.esc(c, rng)) for n, c in ps]


def judge_plugins(ps, act, res):
    exp = [{"name": n, "config": c} for n, c in ps]
    res.obs("plugins", len(ps))
    if act != exp:
        res.viol("plugins", f"expected {exp}, got {show(act)}")


def kind_options(ctx, rng, res):
    d = ctx.fresh()
    # the path the service is started with decides what documents are relative to
    style = rng.randrange(3)
    path = os.path.join(d, "o.beancount")
    given = path if style < 2 else "./o.beancount"
    docdir = d if style < 2 else "."
    lines, exp, roots = gen_options(rng, docdir)
    ps = gen_plugins(rng)
    pl = plugin_lines(ps, rng)
    acc = lambda t: roots.get(t, t)
    body = [f'option "{k}" {gen.esc(v, rng)}' for k, v in lines]
    # options and plugins in any mixture, though each keeps its own order
    mixed = []
    while body or pl:
        mixed.append((body if body and (not pl or rng.random() < 0.6) else pl).pop(0))
    text = "\n".join(mixed) + "\n\n"
    for i, t in enumerate(ROOTS):
        text += f"2020-01-0{i+1} open {acc(t)}:Cash\n"
    text += f'2020-01-09 * "x"\n  {acc("Assets")}:Cash  1 USD\n  {acc("Equity")}:Cash\n'
    with open(path, "w") as f:
        f.write(text)
    run = ctx.serve(given, [req("parser.options", 1), req("parser.plugins", 2), req("book", 3), req("parser.options", 4)], cwd=d)
    res.case((tuple(sorted(exp)), tuple(v for k, v in lines if len(v) < 8), tuple((n == "", c is None) for n, c in ps)))
    if res.sample is None:
        res.sample = {"ledger": text}
    if res.served(run):
        o, p, b, o2 = run.responses()
        if "result" not in o or "result" not in p:
            res.viol("options.answer", show(o)[:500] + show(p)[:300])
        else:
            judge_options(exp, o["result"], res)
            judge_plugins(ps, p["result"], res)
            if W.differing(W.canon(o["result"]), W.canon(o2["result"])):
                res.viol("options.unstable", W.differing(W.canon(o["result"]), W.canon(o2["result"])))
        # the renamed roots are the accounts of the ledger
        want = [acc(t) + ":Cash" for t in ROOTS]
        if "result" not in b or [x.get("acc") for x in b["result"]["directives"] if x["dct"] == "open"] != want:
            res.viol("options.roots", f"expected accounts {want}: {show(b)[:600]}")
        if roots:
            res.obs("renamed-roots")
    if res.viols:
        res.files["ledger"] = text


def kind_bad_option(ctx, rng, res):
    """an option that is unknown, malformed or repeated is reported where it stands, never silently dropped"""
    bad = rng.choice([("no_such_option", "x", "name"), ("booking_method", "SIMPLE", "value"), ("render_commas", "maybe", "value"),
                      ("inferred_tolerance_multiplier", "x1", "value"), ("inferred_tolerance_default", "USD", "value"),
                      ("inferred_tolerance_default", "USD:1:2", "value"), ("operating_currency", "usd", "value"),
                      ("name_assets", "assets", "value"), ("account_rounding", "lower", "value"), ("dup", None, None)])
    good = [("title", "t"), ("conversion_currency", "XYZ"), ("account_rounding", "R")]
    rng.shuffle(good)
    pre = good[:rng.randrange(0, 4)] or [("title", "t")]
    ls = [f'option "{k}" "{v}"' for k, v in pre]
    if bad[0] == "dup":
        k, v = rng.choice(pre)
        line = f'option "{k}" "{v}"'
        off = line.index('"')
    else:
        line = f'option "{bad[0]}" "{bad[1]}"'
        off = line.index('"') if bad[2] == "name" else line.index('"', line.index('" ') + 2)
    at = len("\n".join(ls).encode()) + 1
    text = "\n".join(ls + [line, "2020-01-01 open Assets:Cash"]) + "\n"
    run = ctx.ask(text, "parser.options", "parser.plugins", "parser.directives", "book")
    res.case((bad, tuple(pre)))
    res.obs("bad-option")
    if res.served(run):
        for a in run.responses():
            e = a.get("error")
            if e is None or lit(e.get("code")) != "2" or not e.get("data"):
                res.viol("bad-option", f"{line}: not reported: {show(a)[:300]}")
                break
            s = [int(x) for x in e["data"][0]["span"]]
            if not (s[0] == 0 and s[1] == at + off and s[2] <= at + len(line)):
                res.viol("bad-option.span", f"{line} at {at}: reported at {s}")
                break
    if res.viols:
        res.files["ledger"] = text


OPTS = B.P(err=[0, 0.4], balance=2.0, pad=0.3, lots=1.5, conv=0.8, junk=0.1, passthrough=0.1, lifecycle=0.1, curs=0.05, meta=0.02, exprs=0.02)


# ------------------------------------------------------------- C22: many files

class Bundle:
    """one sequence of directives, spread over a tree of included files"""

    def __init__(self, rng, ds, order, optlines=(), plugins=(), stacks=True):
        self.rng, self.ds = rng, [dict(d) for d in ds]
        items = [("d", i) for i in order]
        # push and pop, anywhere in the sequence, taking effect on what follows until popped
        self.pushes = 0
        if stacks:
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                a = rng.randrange(len(items) + 1)
                b = rng.randrange(a, len(items) + 1)
                if rng.random() < 0.5:
                    t = rng.choice(["stacked", "trip", "t-9"])
                    items[b:b] = [("poptag", t)]
                    items[a:a] = [("pushtag", t)]
                else:
                    k = rng.choice(["location", "category", "k-9"])
                    v = rng.choice([{"string": "caf\u00e9"}, {"cur": "USD"}, {"bool": True}, {"number": gen.N(Decimal("1.50"))}, {"date": "2020-02-29"}])
                    items[b:b] = [("popmeta", k)]
                    items[a:a] = [("pushmeta", (k, v))]
                self.pushes += 1
        for i, (n, c) in enumerate(plugins):
            items.insert(rng.randrange(len(items) + 1), ("p", (i, n, c)))
        self.plugins = [(x[1][1], x[1][2]) for x in items if x[0] == "p"]
        self.apply(items)
        self.nfiles = 0
        self.files = {}          # relative path -> list of items
        self.dirs = {"root.beancount": ""}
        self.split("root.beancount", [("o", x) for x in optlines] + items, 0)
        # a file included again from the same surroundings is harmless
        self.render()

    def apply(self, items):
        """what the stacks do to the directives"""
        tags, metas = {}, {}
        for k, v in items:
            if k == "pushtag":
                tags[v] = tags.get(v, 0) + 1
            elif k == "poptag":
                tags[v] -= 1
            elif k == "pushmeta":
                metas.setdefault(v[0], []).append(v[1])
            elif k == "popmeta":
                metas[v].pop()
            elif k == "d":
                d = self.ds[v]
                d["written"] = (d.get("tags"), d.get("metadata"))
                ts = set(d.get("tags") or ()) | {t for t, n in tags.items() if n}
                if ts:
                    d["tags"] = sorted(ts)
                m = {a: b[-1] for a, b in metas.items() if b}
                m.update(d.get("metadata") or {})
                if m:
                    d["metadata"] = m

    def split(self, name, items, depth):
        rng = self.rng
        self.files[name] = items
        self.nfiles += 1
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if depth == 0 else rng.choice([0, 0, 1, 2]) if depth < 4 else 0):
            items = self.files[name]
            n = len(items)
            if n < 2 or self.nfiles > 12:
                return
            # options stay together at the head
            lo = sum(1 for x in items if x[0] == "o") if rng.random() < 0.7 else 0
            if lo >= n:
                continue
            a = rng.randrange(lo, n)
            b = rng.randrange(a, min(n, a + max(2, n // 2)) + 1)
            if any(x[0] == "i" for x in items[a:b]) or a == b and rng.random() < 0.7:
                continue
            sub = rng.choice(["", "", "sub", "sub/deep", "caf\u00e9 dir"])
            base = f"f{self.nfiles}{rng.choice(['.beancount', '.bean', ''])}"
            here = os.path.dirname(name)
            rel = os.path.join(sub, base)
            if depth and here and rng.random() < 0.3:
                rel = os.path.join("..", base)
            path = os.path.normpath(os.path.join(here, rel))
            pat = rel
            if rng.random() < 0.15:
                pat = rel.replace(base, base[:-1] + "?") if base[-1] != "?" else rel
            self.files[name] = items[:a] + [("i", (path, pat))] + items[b:]
            self.split(path, items[a:b], depth + 1)

    def render(self):
        """text and spans of every file"""
        self.text, self.where = {}, {}
        rng = self.rng
        for name, items in self.files.items():
            st = gen.Style(rng, plain=rng.random() < 0.5)
            o = gen.Out()
            spans = {}
            for k, v in items:
                o.w(st.gap() if o.n and not st.plain else "")
                if k == "d":
                    d = dict(self.ds[v])
                    d["tags"], d["metadata"] = d.pop("written")
                    d = {a: b for a, b in d.items() if b is not None}
                    spans[v] = gen.render_directive(d, st, o)
                elif k == "o":
                    o.w(f'option "{v[0]}" {gen.esc(v[1])}\n')
                elif k == "p":
                    o.w(plugin_lines([v[1:]], None)[0] + "\n")
                elif k == "i":
                    path, pat = v
                    if "?" in pat:
                        # a pattern names this file and no other
                        glob = re.compile(re.escape(os.path.normpath(os.path.join(os.path.dirname(name), pat))).replace("\\?", "[^/]"))
                        if sum(1 for f in self.files if glob.fullmatch(f)) > 1:
                            pat = os.path.relpath(path, os.path.dirname(name) or ".")
                    o.w(f'include {gen.esc(pat)}\n')
                elif k in ("pushtag", "poptag"):
                    o.w(f"{k} #{v}\n")
                elif k == "pushmeta":
                    o.w(f"pushmeta {v[0]}: {gen.meta_text(v[1])}\n")
                else:
                    o.w(f"popmeta {v}:\n")
            self.text[name] = o.text()
            self.where[name] = spans
        for d in self.ds:
            d.pop("written", None)

    def write(self, dir):
        for name, t in self.text.items():
            p = os.path.join(dir, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(t.encode())

    def show(self):
        return "\n".join(f"==> {n} <==\n{t}" for n, t in self.text.items())


class ManyWhere:
    """locates spans over all files, given which source is which file"""

    def __init__(self, bundle, sources):
        self.w = {k: compare.Where(bundle.text[n], bundle.where[n], bundle.ds, k) for k, n in sources.items()}
        self.ds = bundle.ds

    def locate(self, span):
        w = self.w.get(int(span[0])) if isinstance(span, list) and len(span) == 3 else None
        return w.locate(span) if w else None

    def label(self, idx):
        t = self.ds[idx[0]]["dct"]
        return "posting" if len(idx) == 2 else compare.DCT_NAME.get(t, t)


def which_sources(run0, d, bundle, n, res):
    """source ids by file, from how the service resolves the start of each"""
    rs = run0
    out = {}
    for k, r in enumerate(rs[:n]):
        f = os.path.relpath(os.path.realpath(r["file-name"]), os.path.realpath(d))
        if f not in bundle.text or f in out.values():
            res.viol("sources", f"source {k} is called {r['file-name']!r}")
            return None
        out[k] = f
    return out


def kind_many(ctx, rng, res):
    prof = rng.choice([B.FIELDS, B.FIELDS, B.ERRS, B.PAD, B.LOTS])(rng)
    try:
        L = B.make(rng, prof)
        order = gen.interleave(L.ds, rng) if rng.random() < 0.6 else list(range(len(L.ds)))
        ps = gen_plugins(rng)
        bu = Bundle(rng, L.ds, order, L.optlines, ps)
        led = model.Ledger(L.opts)
        led.run(bu.ds)
    except DEAD:
        res.inconclusive += 1
        return
    d = ctx.fresh()
    bu.write(d)
    n = len(bu.text)
    path = os.path.join(d, "root.beancount")
    lines = [req("parser.directives", 1), req("book", 2), req("parser.resolve-spans", 3, params=[[k, 0, 0] for k in range(n)]),
             req("parser.plugins", 4), req("parser.options", 5)]
    if rng.random() < 0.3:
        run = ctx.serve("root.beancount", lines, cwd=d)
    else:
        run = ctx.serve(path, lines)
    res.case((B.profile_sig(L), n, bu.pushes))
    res.obs("files", n)
    if n > 1:
        res.obs("multi-file")
    if bu.pushes:
        res.obs("stacked")
    if res.sample is None and n > 2:
        res.sample = {"files": bu.show()[:1500]}
    if res.served(run):
        a, b, s, p, o = run.responses()
        if "result" not in a:
            res.viol("many.parse", show(a)[:800])
        else:
            base = d
            names = s["result"]
            for x in names:
                if not os.path.isabs(x["file-name"]):
                    x["file-name"] = os.path.join(d, x["file-name"])
            src = which_sources(names, d, bu, n, res)
            if src:
                wh = ManyWhere(bu, src)
                judge_many(bu, a, wh, res)
                for df in B.first(compare.outcome(led, b, wh)):
                    res.viol("many:" + df.tag, repr(df))
                judge_plugins(bu.plugins, p["result"], res)
                for k, v in L.opts.items():
                    if not compare.same(v, o["result"].get(k)):
                        res.viol("many.option", f"{k}: expected {show(v)}, got {show(o['result'].get(k))}")
    if res.viols:
        res.files["files"] = bu.show()


def judge_many(bu, a, wh, res):
    got = a["result"]["directives"]
    if len(got) != len(bu.ds):
        res.viol("many.count", f"{len(bu.ds)} directives written, {len(got)} reported")
        return
    for i, (e, x) in enumerate(zip(bu.ds, got)):
        diffs = []
        compare.raw(e, x, i, diffs)
        if wh.locate(x["span"]) != [i]:
            diffs.append(compare.Diff("many.span", i, f"span {show(x['span'])} is not directive {i}"))
        for j, p in enumerate(x.get("postings") or ()):
            if wh.locate(p["span"]) != [i, j]:
                diffs.append(compare.Diff("many.posting.span", i, f"span {show(p['span'])} is not posting {j} of {i}"))
        res.obs("placed")
        for df in diffs[:3]:
            res.viol("many:" + df.tag, repr(df))
        if diffs:
            return


def kind_wide(ctx, rng, res):
    """hundreds of files, or files of very many or very long lines: what is said of anything is said of its own place"""
    d = ctx.fresh()
    what = rng.choice(["files", "files", "chain", "tall", "long"])
    how = rng.choice(["good", "syntax", "booking"])
    n = rng.choice([258, 300, 530]) if what in ("files", "chain") else rng.choice([3, 20])
    bad = set(range(n)) if rng.random() < 0.3 else set(rng.sample(range(n), rng.randrange(1, n)))
    if n > 255:
        bad.add(rng.randrange(256, n))
    elif how == "syntax":
        # several in one file may be complained of as one
        bad = {rng.randrange(n)}
    line = lambda i: ("2020-01-01 opne Assets:A%d" if how == "syntax" and i in bad else "2020-01-01 close Assets:A%d" if how == "booking" and i in bad else
                      '2020-01-01 open Assets:A%d') % i
    pad = lambda: rng.choice(["", "", "\n", "; caf\u00e9\n\n", "; x\n" * rng.randrange(20)])
    texts = {}
    if what == "files":
        texts["root.beancount"] = "".join('include "f%d.bean"\n' % i for i in range(n))
        for i in range(n):
            texts["f%d.bean" % i] = pad() + line(i) + "\n"
    elif what == "chain":
        for i in range(n):
            texts["root.beancount" if i == 0 else "f%d.bean" % i] = pad() + line(i) + "\n" + ('include "f%d.bean"\n' % (i + 1) if i + 1 < n else "")
    else:
        fill = ("\n" * rng.choice([300, 66000, 70000]), "; x\n" * 33000) if what == "tall" else ("; " + "x" * rng.choice([300, 66000, 140000]) + "\n", "; " + "\u00e9" * 2000 + " x\n")
        texts["root.beancount"] = "".join((rng.choice(fill) if i < 3 else "") + line(i) + "\n" for i in range(n))
    where = {}
    for name, t in texts.items():
        with open(os.path.join(d, name), "w") as f:
            f.write(t)
        for i in range(n) if len(texts) == 1 else [int(name[1:-5]) if name[0] == "f" else 0]:
            k = t.find(line(i) + "\n")
            if k >= 0:
                where[i] = (name, t.count("\n", 0, k) + 1, len(t[:k].encode()))
    path = os.path.join(d, "root.beancount")
    a = ctx.serve(path, [req("parser.directives", 1), req("book", 2)])
    res.case((what, how, n, len(bad), len(texts["root.beancount"])))
    res.obs("wide-" + what)
    res.obs("wide-" + how)
    if not res.served(a):
        return
    ra, rb = a.responses()
    if how == "good":
        xs = ra["result"]["directives"]
        key = lambda x: int(x["acc"].split("A")[-1])
    else:
        e = (ra if how == "syntax" else rb)["error"]
        xs = e["data"]
        key = None
    want = set(range(n)) if how == "good" else bad
    if len(xs) != len(want):
        res.viol("wide", f"{what}, {how}: {len(want)} expected, {len(xs)} reported")
        return
    more = [req("parser.resolve-spans", 1, params=[x["span"] for x in xs])]
    if how != "good":
        more.append('{"jsonrpc":"2.0","id":2,"method":"parser.format-errors","params":%s}' % W.dumps_num(xs))
    b = ctx.serve(path, more)
    if not res.served(b):
        return
    rs = b.responses()
    fmt = rs[1]["result"] if how != "good" else None
    seen = set()
    for q, x in enumerate(rs[0]["result"]):
        name = os.path.relpath(os.path.realpath(x["file-name"]), os.path.realpath(d))
        l = int(lit(x["start-line"]))
        at = [i for i in want if where[i][:2] == (name, l)]
        if len(at) != 1 or at[0] in seen or key and key(xs[q]) != at[0]:
            res.viol("wide.place", f"{what}, {how}: {show(xs[q])[:300]} placed at {name}:{l}, where there is {at}")
            break
        i = at[0]
        seen.add(i)
        res.obs("wide-placed")
        t = texts[name].encode()
        s = int(xs[q]["span"][1])
        # a mistake of spelling begins within its line; anything else spans its directive
        if not where[i][2] <= s <= where[i][2] + len(line(i)) or how != "syntax" and not (x["content"] + "\n").startswith(line(i) + "\n"):
            res.viol("wide.span", f"{what}, {how}: {show(xs[q])[:300]} of {name}:{l} resolves to {show(x)[:300]}")
            break
        if fmt is not None and len(fmt) == len(xs):
            if name not in fmt[q]:
                res.viol("wide.format", f"{what}, {how}: the report of {name}:{l} reads {fmt[q][:300]!r}")
                break
    if res.viols:
        res.files.update(line=line(sorted(want)[0]))


def kind_twice(ctx, rng, res):
    """a file included twice counts once; a missing one, or an unbalanced push, is reported where it is written"""
    d = ctx.fresh()
    what = rng.choice(["twice", "self", "cycle", "missing", "push", "pop", "pushmeta", "popmeta"])
    ds = [f"2020-01-{i+1:02d} open Assets:A{i}" for i in range(6)]
    rng.shuffle(ds)
    root, inc = ds[:3], ds[3:]
    bad = None
    if what == "twice":
        root[1:1] = ['include "inc.bean"']
        root.insert(rng.randrange(2, 5), rng.choice(['include "inc.bean"', 'include "./inc.bean"', 'include "sub/../inc.bean"']))
    elif what == "self":
        root[1:1] = ['include "inc.bean"', 'include "root.beancount"']
    elif what == "cycle":
        root[1:1] = ['include "inc.bean"']
        inc[1:1] = ['include "root.beancount"']
    else:
        bad = {"missing": 'include "nosuch.bean"', "push": "pushtag #x", "pop": "poptag #x", "pushmeta": 'pushmeta kk: "v"',
               "popmeta": "popmeta kk:"}[what]
        root[1:1] = ['include "inc.bean"']
        (root if rng.random() < 0.5 else inc).insert(rng.randrange(0, 4), bad)
    os.makedirs(os.path.join(d, "sub"))
    for n, t in (("root.beancount", root), ("inc.bean", inc)):
        with open(os.path.join(d, n), "w") as f:
            f.write("\n".join(t) + "\n")
    run = ctx.serve(os.path.join(d, "root.beancount"), [req("parser.directives", 1), req("parser.resolve-spans", 2, params=[[0, 0, 0], [1, 0, 0]])])
    res.case((what, tuple(root), tuple(inc)))
    res.obs("include-" + what)
    if res.served(run):
        a, s = run.responses()
        if bad is None and what in ("self", "cycle"):
            # whether a cycle is an error is not stated; nothing may be counted twice
            if "result" in a:
                accs = [x["acc"] for x in a["result"]["directives"]]
                if accs != sorted(set(accs)) or len(accs) != 6:
                    res.viol("cycle", f"accounts {accs}")
        elif bad is None:
            accs = [x["acc"] for x in a["result"]["directives"]] if "result" in a else None
            if accs != [f"Assets:A{i}" for i in range(6)]:
                res.viol("twice", f"expected each of 6 accounts once: {show(a)[:500]}")
        else:
            e = a.get("error")
            if e is None or lit(e["code"]) != "2" or len(e["data"]) != 1:
                res.viol(what, f"expected one report: {show(a)[:500]}")
            else:
                sp = [int(x) for x in e["data"][0]["span"]]
                t = "\n".join(root if bad in root else inc)
                at = t.index(bad)
                if sp[0] != (0 if bad in root else 1) or not at <= sp[1] <= sp[2] <= at + len(bad) + 1:
                    res.viol(what + ".span", f"{bad!r} at {at}, reported at {sp}")
    if res.viols:
        res.files.update(root="\n".join(root), inc="\n".join(inc))


# ------------------------------------------------------------- C23: unreadable and unparsable

METHODS = ["parser.plugins", "parser.directives", "parser.options", "book"]


def kind_unreadable(ctx, rng, res):
    d = ctx.fresh()
    what = rng.choice(["missing", "directory", "latin1", "truncated-utf8", "utf16", "missing-dir", "dangling"])
    name = rng.choice(["x.beancount", "caf\u00e9.bean", "with space", "l\udcff.bean", "\udcc3x", "-", "$HOME", "a%sb{}"])
    p = os.path.join(d, name)
    if not name.isascii():
        res.obs("unreadable-named-bytes" if any(0xdc80 <= ord(c) < 0xdd00 for c in name) else "unreadable-named-wide")
    if what == "directory":
        os.mkdir(p)
    elif what == "latin1":
        open(p, "wb").write('2020-01-01 open Assets:A\n2020-01-02 note Assets:A "caf\u00e9"\n'.encode("latin-1"))
    elif what == "truncated-utf8":
        open(p, "wb").write('2020-01-01 open Assets:A\n; \u6771'.encode()[:-1])
    elif what == "utf16":
        open(p, "wb").write('2020-01-01 open Assets:A\n'.encode("utf-16"))
    elif what == "missing-dir":
        p = os.path.join(p, "y")
    elif what == "dangling":
        os.symlink("nowhere", p)
    lines, ids = [], []
    ms = METHODS + ["status"]
    rng.shuffle(ms)
    ms = ms + ["parser.resolve-spans", "parser.format-errors", "parser.create-synthetic-spans"]
    for i, m in enumerate(ms):
        kw = {"params": []} if m.startswith(("parser.re", "parser.fo", "parser.cr")) else {}
        lines.append(req(m, i * 7, **kw))
    run = ctx.serve(p, lines)
    res.case((what, ascii(name), tuple(ms)))
    res.obs("unreadable-" + what)
    shown = p.encode("utf-8", "surrogateescape").decode(errors="replace")
    if res.served(run):
        first = None
        for i, a in enumerate(run.responses()):
            e = a.get("error")
            if lit(a.get("id")) != str(i * 7) or e is None or lit(e.get("code")) != "1" or shown not in e.get("message", "") or set(a) != {"jsonrpc", "id", "error"}:
                res.viol("unreadable", f"{what} {shown}, {ms[i]}: {show(a)[:400]}")
                break
            first = first or e["message"]
            if e["message"] != first:
                res.viol("unreadable.inconsistent", f"{first!r} then {e['message']!r}")
                break


BADLINES = ["2020-13-01 open Assets:Cash", "2020-01-01 opne Assets:Cash", "2020-01-01 open assets:cash", "2020-01-01 balance Assets:Cash 5",
            "garbage", "2020-01-01 txn \"a\" \"b\" \"c\"", "2020-01-01 open Foo:Bar", "2020-01-01 close", "))", "2020-01-01 price USD 5",
            "option \"title\"", "2020-02-30 open Assets:Cash", "2020-01-01 custom", "2020-01-01 pad Assets:Cash", "\u6771\u4eac"]


# mistakes within others: the text, with what the mistake lies within, from the outside in, written <label|text
NESTED = ["<transaction|2020-01-01 *\n  <posting|Assets:A  1 USD\n    <metadata|key: : x\n  Assets:B", "<transaction|2020-01-01 *\n  Assets:B  1 USD\n  <posting|Assets:A  1 USD\n    <metadata|key: : x",
          "<directive|2020-01-01 open Assets:A\n  <metadata|key: : x", "<directive|2020-01-01 note Assets:A \"x\"\n  ok: 1\n  <metadata|k2: {", "<directive|2020-01-01 open Assets:A x",
          "<transaction|2020-01-01 *\n  <posting|Assets:A  1 USD {10 USD, : }", "<transaction|2020-01-01 *\n  <posting|Assets:A  1 USD @ : ", "<transaction|2020-01-01 *\n  <posting|Assets:A  (1+ USD",
          "<directive|<balance|2020-01-01 balance Assets:A : USD", "<directive|<price|2020-01-01 price USD 10 :", "<directive|2020-01-01 custom \"x\" : ",
          "<transaction|2020-01-01 * \"p\" \"n\" #t ^l\n  <posting|Assets:A  1 USD\n    <metadata|ok: 1 +\n  Assets:B"]
SOUND = ["2020-01-01 open Assets:A", "2020-01-01 * \"caf\u00e9\"\n  Assets:A  1 USD\n    kk: \"\u6771\"\n  Assets:B", "; \u00e9", "", "option \"title\" \"x\"", "2020-01-02 note Assets:A \"x\"\n  kk: 1"]


def kind_nested(ctx, rng, res):
    """a mistake deep within something: the complaint says what it lies within, each with its place, innermost first"""
    names = ["n.beancount"] + (["sub.beancount"] if rng.random() < 0.3 else [])
    d = ctx.fresh()
    made, chosen = {}, []
    for i, name in enumerate(names):
        parts = [rng.choice(SOUND) for _ in range(rng.choice([0, 1, 3]))]
        for _ in range(rng.choice([1, 1, 2, 3])):
            parts += [("bad", rng.choice(NESTED))] + [rng.choice(SOUND) for _ in range(rng.choice([0, 1, 2]))]
        if len(names) > 1 and i == 0:
            parts = ['include "sub.beancount"'] + parts
        t = ""
        for x in parts:
            if isinstance(x, str):
                t += x + "\n\n"
                continue
            at = []
            for j, y in enumerate(x[1].split("<")):
                if j:
                    lab, y = y.split("|", 1)
                    at.append((lab, len(t.encode())))
                t += y
            chosen.append((name, at[::-1], len(t.encode()), x[1]))
            t += "\n\n"
        made[name] = t
        with open(os.path.join(d, name), "wb") as f:
            f.write(t.encode())
    path = os.path.join(d, names[0])
    res.case(tuple(x[1:] for x in chosen))
    res.obs("nested")
    run = ctx.serve(path, [req("parser.directives", 1), req("parser.resolve-spans", 2, params=[[k, 0, 0] for k in range(len(names))]), req("book", 3)])
    if not res.served(run):
        return
    a, where, b = run.responses()
    data = (a.get("error") or {}).get("data")
    if not data or W.differing(W.canon(a["error"]), W.canon(b.get("error"))):
        res.viol("nested", f"{show(a)[:300]} or {show(b)[:300]}")
    else:
        ids = [os.path.basename(x["file-name"]) for x in where["result"]]
        got = [(ids[int(x["span"][0])], [(l, [int(y) for y in s]) for l, s in x.get("contexts") or ()], [int(y) for y in x["span"]]) for x in data]
        first = set()
        for name, at, end, text in chosen:
            b = made[name].encode()
            # what is in a line may be said to begin with the space before it; where there was a mistake before, this may not have been looked at
            mine = [(c, sp) for n, c, sp in got if n == name and at[-1][1] <= sp[1] <= end and c]
            ok = [[l for l, _ in c] == [l for l, _ in at] and all(s[0] == sp[0] and s[1] <= p <= s[2] <= end and not b[s[1]:p].strip() for (_, s), (_, p) in zip(c, at)) for c, sp in mine]
            if not all(ok) or not ok and name not in first:
                res.viol("nested.contexts", f"{text!r}: expected a complaint in {name} within {at}, before {end}, got {got}")
                break
            if ok:
                res.obs("context", len(at))
            first.add(name)
        if len(names) == 1 and not res.viols:
            m = rng.choice(["errors", "warnings"])
            f = ctx.serve(path, ['{"jsonrpc":"2.0","id":1,"method":"parser.format-%s","params":%s}' % (m, W.dumps_num(data))])
            if res.served(f):
                judge_format(data, made[names[0]], path, f.responses()[0].get("result"), m[:-1].capitalize(), res)
    if res.viols:
        res.files.update(made)


def kind_unparsable(ctx, rng, res):
    """a file that does not parse gives the same complaints to every question, located where the fault is"""
    ds, text, spans = W.raw_ledger(rng, n=rng.choice([1, 4, 10]))
    starts = sorted(s for s, _, _ in spans.values())
    at = rng.choice(starts + [len(text.encode())])
    b = text.encode()
    line = rng.choice(BADLINES)
    new = b[:at] + (line + "\n").encode() + b[at:]
    path = ctx.write("u.beancount", new)
    ms = METHODS[:]
    rng.shuffle(ms)
    lines = [req("status", 0)] + [req(m, i + 1) for i, m in enumerate(ms)] + \
        ['{"jsonrpc":"2.0","id":"p","method":"book","params":[]}', req("parser.resolve-spans", 9, params=[[0, at, at + len(line.encode())]])]
    run = ctx.serve(path, lines)
    res.case((line, sorted({d["dct"] for d in ds}), at == len(b)))
    res.obs("unparsable")
    if not res.served(run):
        if b"rust_decimal" in run.err:
            res.viols.clear()
            res.inconclusive += 1
        return
    rs = run.responses()
    if rs[0].get("result", 0) is not None:
        res.viol("unparsable.status", show(rs[0])[:300])
    datas = []
    for a in rs[1:6]:
        e = a.get("error")
        if e is None or lit(e["code"]) != "2" or not e.get("data") or e.get("message") != "Error reports":
            res.viol("unparsable", f"{line!r} at {at}: {show(a)[:400]}")
            break
        datas.append(W.canon(e["data"]))
    else:
        for x in datas[1:]:
            dd = W.differing(datas[0], x)
            if dd:
                res.viol("unparsable.inconsistent", dd)
        # the fault is pointed at: some complaint lies on the bad line, or just before what follows it
        sp = [[int(y) for y in x["span"]] for x in rs[1]["error"]["data"]]
        end = at + len(line.encode()) + 1
        if not any(s[0] == 0 and at <= s[1] <= end for s in sp):
            res.viol("unparsable.span", f"{line!r} at {at}, complaints at {sp}")
        if any(not 0 <= s[1] <= s[2] <= len(new) for s in sp):
            res.viol("unparsable.span", f"complaints at {sp} in a file of {len(new)} bytes")
        if any(not x.get("message") or not x.get("reason") for x in rs[1]["error"]["data"]):
            res.viol("unparsable.report", show(rs[1])[:400])
        f = ctx.serve(path, ['{"jsonrpc":"2.0","id":1,"method":"parser.format-errors","params":%s}' % W.dumps_num(rs[1]["error"]["data"])])
        if res.served(f):
            t = f.responses()[0].get("result")
            for x in rs[1]["error"]["data"]:
                if not isinstance(t, str) or squash(x["message"]) not in squash(plain(t)):
                    res.viol("unparsable.format", f"{x['message']!r} not in {t!r}")
    r = rs[6].get("result")
    if not r or r[0]["content"] != line.rstrip() and ord(line[-1]) < 128:
        res.viol("unparsable.resolve", f"{show(rs[6])[:300]} for {line!r}")
    if res.viols:
        res.files["ledger"] = new.decode()


# mistakes of grammar, and of meaning; the latter are looked for only in the absence of the former
FAULTS = {"grammar": BADLINES + ["plugin", "include"],
          "meaning": ['option "no_such_option" "x"', "poptag #never-pushed", "popmeta never-pushed:", 'include "no-such-file.beancount"', 'option "render_commas" "maybe"',
                      'option "inferred_tolerance_multiplier" "x1"']}


def kind_unparsable_many(ctx, rng, res):
    """mistakes in any of several files, one or many, of several kinds: every question which depends on them is answered with
    the one list, in which each mistake is found at its place in its file; the other questions are answered as ever"""
    ds, _, _ = W.raw_ledger(rng, n=rng.choice([2, 4, 10, 20]))
    kind = rng.choice(["grammar", "meaning"])
    bu = Bundle(rng, ds, gen.interleave(ds, rng), (), gen_plugins(rng), stacks=kind == "meaning")
    names = list(bu.text)
    deep = names[1:] if len(names) > 1 and rng.random() < 0.5 else names
    faulty = rng.sample(deep, min(len(deep), rng.choice([1, 1, 2, 5])))
    faults = []
    for n in faulty:
        st = sorted(s for s, _, _ in bu.where[n].values())
        b = bu.text[n].encode()
        ats = sorted(rng.choice(st + [len(b)]) for _ in range(rng.choice([1, 1, 2, 4] if kind == "grammar" or rng.random() < 0.9 else [40, 70, 150, 300])))
        if len(ats) <= 4:
            ats = sorted(set(ats))
        new, prev = b"", 0
        for at in ats:
            line = rng.choice(FAULTS[kind])
            new += b[prev:at]
            if at == len(b) and new and not new.endswith(b"\n"):
                new += b"\n"
            faults.append((n, line, len(new), len(new) + len(line.encode()) + 1))
            new += (line + "\n").encode()
            prev = at
        bu.text[n] = (new + b[prev:]).decode()
    d = ctx.fresh()
    bu.write(d)
    path = os.path.join(d, "root.beancount")
    ask = [m for m in METHODS for _ in range(rng.choice([1, 2]))]
    rng.shuffle(ask)
    lines = [req("parser.resolve-spans", 0, params=[[k, 0, 0] for k in range(len(names))])]
    plan = [None]
    for m in ask:
        if rng.random() < 0.3:
            plan.append("other")
            lines.append(rng.choice([req("status", 5), req("parser.create-synthetic-spans", 5, params=[{"name": "n", "content": "2020-01-01 open Assets:A\n"}]),
                                     req("parser.resolve-spans", 5, params=[[0, 0, 1]]), req("parser.format-errors", 5, params=[{"message": "m", "reason": "r", "span": [0, 0, 1]}])]))
        plan.append(m)
        lines.append(req(m, 1, params=json.loads(dumps(ds))[:rng.choice([0, 1, len(ds)])]) if m == "book" and rng.random() < 0.5 else req(m, 1))
    run = ctx.serve(path, lines)
    res.case((len(names), tuple(x[1] for x in faults)))
    res.obs("unparsable-many")
    res.obs("fault-of-" + kind)
    res.obs("fault-" + ("included" if any(n != "root.beancount" for n, *_ in faults) else "root"))
    if all(n != "root.beancount" for n, *_ in faults):
        res.obs("fault-only-included")
    if not res.served(run):
        if b"rust_decimal" in run.err:
            res.viols.clear()
            res.inconclusive += 1
        return
    rs = run.responses()
    ref = None
    for m, a, l in zip(plan[1:], rs[1:], lines[1:]):
        if m == "other":
            if "result" not in a:
                res.viol("many.other", f"{l[:200]}: {show(a)[:300]}")
            continue
        e = a.get("error")
        if "result" in a or e is None or lit(e["code"]) != "2" or not e.get("data") or e.get("message") != "Error reports":
            res.viol("many.half", f"{m} with mistakes {faults}: {show(a)[:400]}")
            break
        x = W.canon(e["data"])
        if ref is None:
            ref, raw = x, e["data"]
        else:
            dd = W.differing(ref, x)
            if dd:
                res.viol("many.inconsistent", f"{m}: {dd}")
                break
    if ref and not res.viols:
        byname = {}
        for k, x in enumerate(rs[0]["result"]):
            byname[k] = os.path.relpath(os.path.realpath(x["file-name"]), os.path.realpath(d)) if x["file-name"] else None
        sp = [[int(y) for y in x["span"]] for x in raw]
        # a mistake may be noticed only at what follows it
        for n, line, a, b in faults:
            if not any(byname.get(s[0]) == n and a <= s[1] <= b for s in sp):
                res.viol("many.unreported", f"{line!r} at {a} of {n}: complaints at {[(byname.get(s[0]), s[1:]) for s in sp]}")
                break
        for s in sp:
            n = byname.get(s[0])
            if n not in {f[0] for f in faults}:
                res.viol("many.invented", f"a complaint at {n} {s[1:]}, where there is no mistake; mistakes are {faults}")
                break
            res.obs("complaint-placed")
    if res.viols:
        res.files["files"] = bu.show()


# ------------------------------------------------------------- C17: spans

WS = set("\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000")


def resolved(text, start, end):
    """(content, start line, end line, multibyte end)"""
    b = text.encode()
    try:
        if not 0 <= start <= end <= len(b):
            raise ValueError
        pre = b[:start].decode()
        mid = b[start:end].decode()
        b[end:].decode()
    except ValueError:
        return "", 1, 1, False
    k = len(mid)
    while k and mid[k - 1] in WS:
        k -= 1
    t = mid[:k] if k else mid
    l = 1 + pre.count("\n")
    return t, l, l + t.count("\n"), bool(k) and ord(mid[k - 1]) > 127


def judge_resolved(a, name, text, s, e, res, what, lines=True):
    t, l0, l1, mb = resolved(text, s, e)
    if set(a) != {"file-name", "start-line", "end-line", "content"}:
        res.viol("resolve.shape", show(a)[:300])
        return
    res.obs("resolved")
    if a["file-name"] != name:
        res.viol("resolve.file", f"{what}: {a['file-name']!r}, expected {name!r}")
    if lines and (lit(a["start-line"]), lit(a["end-line"])) != (str(l0), str(l1)):
        res.viol("resolve.lines", f"{what}: lines {lit(a['start-line'])}-{lit(a['end-line'])}, expected {l0}-{l1}")
    if mb:
        # text ending in a character of several bytes is lost: a recorded finding
        res.obs("resolve-multibyte-end")
        if a["content"] not in (t, ""):
            res.viol("resolve.content", f"{what}: {a['content']!r}, expected {t!r}")
    elif a["content"] != t:
        res.viol("resolve.content", f"{what}: {a['content']!r}, expected {t!r}")


def kind_resolve(ctx, rng, res):
    """spans of parsed directives and postings, and arbitrary ones, over several files"""
    ds, text, spans = W.raw_ledger(rng)
    order = gen.interleave(ds, rng)
    bu = Bundle(rng, ds, order, (), (), stacks=False)
    if rng.random() < 0.2 and not any("\n" in json.dumps(d, default=str, ensure_ascii=False) for d in ds):
        bu.text = {n: t.replace("\n", "\r\n") for n, t in bu.text.items()}
        res.obs("crlf")
    if rng.random() < 0.04:
        # a file of many lines
        k = rng.choice(list(bu.text))
        bu.text[k] = "\n" * rng.choice([300, 33000, 70000]) + bu.text[k]
        res.obs("many-lines")
    d = ctx.fresh()
    bu.write(d)
    n = len(bu.text)
    path = os.path.join(d, "root.beancount")
    run0 = ctx.serve(path, [req("parser.directives", 1), req("parser.resolve-spans", 2, params=[[k, 0, 0] for k in range(n)])])
    res.case((n, len(ds), W.sig_raw(ds)))
    if not res.served(run0):
        if b"rust_decimal" in run0.err:
            res.viols.clear()
            res.inconclusive += 1
        return
    a, s = run0.responses()
    if "result" not in a:
        res.viol("resolve.parse", show(a)[:500], files=bu.show())
        return
    src = which_sources(s["result"], d, bu, n, res)
    if src is None:
        return
    names = [x["file-name"] for x in s["result"]]
    asks = []
    for x in a["result"]["directives"]:
        asks.append([int(y) for y in x["span"]])
        for p in x.get("postings") or ():
            asks.append([int(y) for y in p["span"]])
    for _ in range(40):
        k = rng.randrange(n)
        size = len(bu.text[src[k]].encode())
        i, j = rng.randrange(size + 3), rng.randrange(size + 3)
        if rng.random() < 0.9 and i > j:
            i, j = j, i
        if rng.random() < 0.5:
            j = min(i + rng.randrange(80), size)
        asks.append([k, i, j])
    asks += [[n, 0, 5], [n + 7, 3, 9], [0, 0, 10 ** 9], [2 ** 40, 0, 1], [0, 5, 3]]
    rng.shuffle(asks)
    run = ctx.serve(path, [req("parser.resolve-spans", 1, params=asks), req("parser.resolve-spans", 2, params=[])])
    if res.served(run):
        r = run.responses()
        if len(r[0]["result"]) != len(asks) or r[1]["result"] != []:
            res.viol("resolve.count", f"{len(asks)} asked, {len(r[0]['result'])} answered; none asked, {show(r[1])[:100]}")
        else:
            for q, x in zip(asks, r[0]["result"]):
                if q[0] in src:
                    judge_resolved(x, names[q[0]], bu.text[src[q[0]]], q[1], q[2], res, q)
                else:
                    judge_resolved(x, names[0], bu.text[src[0]], 0, 0, res, q)
                if res.viols:
                    break
    if res.viols:
        res.files["files"] = bu.show()


FRAGS = ["2020-01-01 open Assets:X\n", "x", "", "2020-01-02 * \"t\"\n  Assets:X  1 USD\n  Assets:Y\n", "  Assets:X  1 USD\n", "\n\n", "a\n\n  b  \n", "; note \"q\"\\",
         "tab\there\n", "\r\n", "a\r\nb\r\n", "a\rb", "\r", "\n\r", "x \t \n", " \n \n", "\x0c\n", "no end"]
UFRAGS = ["caf\u00e9 \u6771\u4eac\n", "\U0001f600 x", "na\u00efve ;\n\n"]


def kind_synthetic(ctx, rng, res):
    """synthetic sources: each fragment keeps its own span, name, lines and text, whatever is made later"""
    text = "2020-01-01 open Assets:A\n2020-01-01 open Assets:B\n" + rng.choice(["", "; caf\u00e9\n"])
    path = ctx.write("s.beancount", text)
    names = ["Synthetic directive from a", "b", "caf\u00e9 \u6771", "", path, "[inline]"]
    if rng.random() < 0.5:
        # names which differ only in what is easily lost
        b = rng.choice(["n", "caf\u00e9", "a/b"])
        names = rng.sample([b, " " + b, b + " ", b + "\n", "\t" + b, b.upper(), b + "/", "./" + b, b + "\u00a0", "", " ", b + "\0", b + "." , "cafe\u0301", b + b, gen.long_string(rng),
                            b + "//c", "../" + b, "/" + b, b + "\\c", "file:" + b, "~/" + b, b + ":1", "<" + b + ">", b + "\r\n" + b, b + "%20", '"' + b + '"', b + ".beancount"], rng.randrange(2, 7))
    content, ids, known, uni = {}, [], [], set()
    lines, plan = [], []
    nonascii = rng.random() < 0.4
    for step in range(rng.randrange(2, 9)):
        if rng.random() < 0.6 or not known:
            ps = []
            exp = []
            for _ in range(rng.choice([0, 1, 1, 2, 5]) if rng.random() < 0.95 else rng.choice([25, 60, 300])):
                nm = rng.choice(names)
                c = rng.choice(FRAGS + (UFRAGS if nonascii else []))
                if nm not in content:
                    ids.append(nm)
                    content[nm] = ""
                start = len(content[nm].encode())
                if content[nm] and not (content[nm] + c).isascii():
                    uni.add(nm)
                content[nm] += c
                sp = [1 + ids.index(nm), start, start + len(c.encode())]
                ps.append({"name": nm, "content": c})
                exp.append(sp)
                known.append(sp)
            lines.append(W.Emit(rng, escapes=W.PROSE)({"jsonrpc": "2.0", "id": step, "method": "parser.create-synthetic-spans", "params": ps}))
            plan.append(("create", exp, None))
        else:
            asks = [rng.choice(known) for _ in range(rng.randrange(1, 6))] + [[0, 0, 24]]
            for _ in range(3):
                k = rng.choice(known)
                asks.append([k[0], k[1], max(k[1], k[2] - 1)])
            asks.append([1 + len(ids), 0, 1])
            lines.append(req("parser.resolve-spans", step, params=asks))
            plan.append(("resolve", asks, (dict(content), list(ids))))
    asks = list(known) + [[0, 25, 49]]
    lines.append(req("parser.resolve-spans", 99, params=asks))
    plan.append(("resolve", asks, (dict(content), list(ids))))
    run = ctx.serve(path, lines)
    res.case(tuple(lines))
    if res.sample is None:
        res.sample = {"requests": lines[:4]}
    if res.served(run):
        for (what, want, then), a in zip(plan, run.responses()):
            if "result" not in a:
                res.viol("synthetic.answer", show(a)[:300])
            elif what == "create":
                res.obs("synthetic-created", len(want))
                if [[lit(x) for x in sp] for sp in a["result"]] != [[str(x) for x in sp] for sp in want]:
                    res.viol("synthetic.span", f"expected {want}, got {show(a['result'])}")
            else:
                cont, idl = then
                for q, x in zip(want, a["result"]):
                    if q[0] == 0 or q[0] > len(idl):
                        judge_resolved(x, path, text, q[1], q[2], res, q) if q[0] == 0 else judge_resolved(x, path, text, 0, 0, res, q)
                    else:
                        nm = idl[q[0] - 1]
                        # lines go astray after a second fragment with characters of several bytes: a recorded finding
                        judge_resolved(x, nm, cont[nm], q[1], q[2], res, (nm, q), lines=nm not in uni)
                        res.obs("synthetic-resolved")
                if len(want) != len(a["result"]):
                    res.viol("resolve.count", f"{len(want)} asked, {len(a['result'])} answered")
            if res.viols:
                break
    if res.viols:
        res.files["requests"] = "\n".join(lines)
        res.files["ledger"] = text


def probe_multibyte_end(ctx, res):
    t = "2020-01-01 open Assets:Caf\u00e9\n"
    run = ctx.ask(t, req("parser.resolve-spans", 1, params=[[0, 0, len(t.encode())]]))
    if not res.served(run):
        return "died"
    c = run.responses()[0]["result"][0]["content"]
    return None if c == t.strip() else "known" if c == "" else repr(c)


def probe_synthetic_lines(ctx, res):
    run = ctx.ask("2020-01-01 open Assets:A\n",
                  req("parser.create-synthetic-spans", 1, params=[{"name": "p", "content": "\u00e9\u00e9\u00e9\u00e9\n\n\n"}, {"name": "p", "content": "line four\nline five\n"}]),
                  req("parser.resolve-spans", 2, params=[[1, 11, 31]]))
    if not res.served(run):
        return "died"
    r = run.responses()[1]["result"][0]
    got = (lit(r["start-line"]), lit(r["end-line"]), r["content"])
    if got == ("4", "5", "line four\nline five"):
        return None
    return "known" if got[2] == "line four\nline five" else repr(got)


# ------------------------------------------------------------- C18: formatted reports

ANSI = re.compile(r"\x1b\[[0-9;]*m")


def plain(s):
    return ANSI.sub("", s)


def one_line(text):
    """what is a line is not the same to everyone: only newlines here (bytes keep their places)"""
    for c in "\u2028\u2029":
        text = text.replace(c, "\u6771")
    return text.replace("\x85", "\u00e9").replace("\x0b", "_").replace("\x0c", "_")


def squash(s):
    return " ".join(s.split())


def judge_format(reports, text, path, out, kind, res, more=()):
    """every report, in order, with its message, reason, place and source line; more: the (path, text) of sources beyond the first"""
    if not isinstance(out, str):
        res.viol("format.shape", show(out)[:300])
        return
    o = plain(out)
    files = [(path, text.encode())] + [(p, t.encode()) for p, t in more]
    pos = 0
    heads = [m.start() for m in re.finditer(rf"^{kind}: ", o, re.M)]
    if len(heads) < len(reports):
        res.viol("format.count", f"{len(reports)} reports, {len(heads)} formatted: {o[:1500]!r}")
        return
    for k, r in enumerate(reports):
        s, e = int(r["span"][1]), int(r["span"][2])
        path, b = files[int(r["span"][0])]
        head = f"{kind}: {r['message']}"
        at = o.find(head, pos)
        if at < 0:
            res.viol("format.message", f"report {k}: {head!r} not found after {pos}: {o[pos:pos+600]!r}")
            return
        # up to the next report's header
        nxt = min([o.find(f"\n{kind}: {q['message']}", at + 1) for q in reports[k + 1:k + 2] if o.find(f"\n{kind}: {q['message']}", at + 1) >= 0] or [len(o)])
        part = o[at:nxt]
        pos = at + len(head)
        res.obs("report-formatted")
        try:
            line = b[:s].decode().count("\n") + 1
            col = len(b[:s].decode().split("\n")[-1]) + 1
            src = b.decode().split("\n")[line - 1]
        except ValueError:
            continue
        if f"[ {path}:{line}:{col} ]" not in part:
            res.viol("format.place", f"report {k}: {path}:{line}:{col} not shown: {part[:500]!r}")
        if squash(r["reason"]) not in squash(part):
            res.viol("format.reason", f"report {k}: {r['reason']!r} not shown: {part[:800]!r}")
        if squash(src) not in squash(part):
            res.viol("format.source", f"report {k}: source line {src!r} not shown: {part[:800]!r}")
        for lab, sp in r.get("contexts") or ():
            if f"in this {lab}" not in part:
                res.viol("format.context", f"report {k}: 'in this {lab}' not shown: {part[:800]!r}")
            p2, b2 = files[int(sp[0])]
            if p2 != path:
                res.obs("drawn-elsewhere")
            ln = b2[:int(sp[1])].decode().count("\n")
            if squash(b2.decode().split("\n")[ln]) not in squash(part) or p2 not in part:
                res.viol("format.context", f"report {k}: context line {ln + 1} not shown: {part[:800]!r}")
        for lab, sp in r.get("related") or ():
            p2, b2 = files[int(sp[0])]
            if p2 != path:
                res.obs("drawn-elsewhere")
            ln = b2[:int(sp[1])].decode().count("\n")
            if lab not in part or squash(b2.decode().split("\n")[ln]) not in squash(part) or p2 not in part:
                res.viol("format.related", f"report {k}: related {lab!r} at line {ln + 1} not shown: {part[:800]!r}")
            res.obs("related-formatted")
        if r.get("annotation") is not None:
            res.obs("annotation-formatted")
            if r["annotation"] + "\n" not in part and plain(r["annotation"]) + "\n" not in part:
                res.viol("format.annotation", f"report {k}: annotation {r['annotation']!r} not shown verbatim: {part[:1200]!r}")
        if res.viols:
            return


def kind_format(ctx, rng, res):
    """booking complaints, formatted"""
    try:
        L = B.make(rng, rng.choice([B.ERRS, B.DIAG, B.LIFE])(rng))
    except DEAD:
        res.inconclusive += 1
        return
    L.text = one_line(L.text)
    run0 = ctx.ask(L.text, "book")
    if not res.served(run0):
        return
    a = run0.responses()[0]
    res.case((B.profile_sig(L), "fmt"), nontrivial="error" in a)
    if "error" not in a:
        return
    data = a["error"]["data"]
    if rng.random() < 0.3:
        rng.shuffle(data)
    warn = rng.random() < 0.4
    m = "parser.format-warnings" if warn else "parser.format-errors"
    params = W.Emit(rng, escapes=W.PROSE)(data) if rng.random() < 0.4 else W.dumps_num(data)
    half = len(data) // 2
    run = ctx.serve(run0.path, ['{"jsonrpc":"2.0","id":1,"method":"%s","params":%s}' % (m, params), req(m, 2, params=[]),
                                '{"jsonrpc":"2.0","id":3,"method":"%s","params":%s}' % (m, W.dumps_num(data[:half])), req("book", 4)])
    if res.sample is None:
        res.sample = {"ledger": L.text[:600], "reports": len(data)}
    if res.served(run):
        r = run.responses()
        kind = "Warning" if warn else "Error"
        judge_format(data, L.text, run0.path, r[0].get("result"), kind, res)
        if r[1].get("result") != "":
            res.viol("format.empty", show(r[1])[:200])
        if half:
            judge_format(data[:half], L.text, run0.path, r[2].get("result"), kind, res)
        d = W.same_outcome(a, r[3], L.where, L.where, L.led) if not res.viols and rng.random() < 0.5 and data == a["error"]["data"] else None
    if res.viols:
        res.files["ledger"] = L.text
        res.files["reports"] = W.dumps_num(data)


def kind_format_made(ctx, rng, res):
    """reports composed by a client, as plugins do, over real and synthetic sources"""
    ds, text, spans = W.raw_ledger(rng, n=rng.choice([2, 6, 12]))
    text = one_line(text)
    more = []
    if rng.random() < 0.35:
        ds2, text2, spans2 = W.raw_ledger(rng, n=rng.choice([2, 6, 12]))
        text2 = one_line(text2)
        if not text.endswith("\n"):
            text += "\n"
        text += 'include "other.beancount"\n'
        path = ctx.write("f.beancount", text)
        other = os.path.join(os.path.dirname(path), "other.beancount")
        with open(other, "wb") as f:
            f.write(text2.encode())
        more = [(other, text2)]
        res.obs("composed-of-files")
    else:
        path = ctx.write("f.beancount", text)
    keys = list(spans)
    reports = []

    def span():
        n, sps = (1, spans2) if more and rng.random() < 0.5 else (0, spans)
        s, e, ps = sps[rng.choice(list(sps))]
        return [n] + list(rng.choice([(s, e)] + [tuple(p) for p in ps]))
    words = ["something amiss", "caf\u00e9 \u6771\u4eac", "with \"quotes\"", "back\\slash", "a: b", "100%"]
    for _ in range(rng.choice([1, 1, 2, 4])):
        r = {"message": rng.choice(words) + f" {len(reports)}", "reason": rng.choice(words), "span": span()}
        if rng.random() < 0.3:
            r["related"] = [[rng.choice(["first seen", "transaction", "see", "see", ""]), span()] for _ in range(rng.randrange(1, 3) if rng.random() < 0.8 else rng.randrange(3, 25))]
        if rng.random() < 0.3:
            r["contexts"] = [[rng.choice(["posting", "transaction", "plugin x", "caf\u00e9", ""]), span()] for _ in range(rng.randrange(1, 3) if rng.random() < 0.8 else rng.randrange(3, 12))]
        if rng.random() < 0.3:
            r["annotation"] = rng.choice(["one line", "  two\n  lines  x", "caf\u00e9", "2020-01-01  1.50 USD", "", " ", "\n", "trailing\n", "\n\nleading", "\t| 1", "e\u0301\u00a0"])
        reports.append(r)
    warn = rng.random() < 0.5
    m = "parser.format-warnings" if warn else "parser.format-errors"
    run = ctx.serve(path, ['{"jsonrpc":"2.0","id":1,"method":"%s","params":%s}' % (m, W.Emit(rng, escapes=W.PROSE)(reports))]
                    + [req(m, 2 + i, params=[{k: v for k, v in r.items() if k != "annotation"}]) for i, r in enumerate(reports)])
    res.case((len(reports), [sorted(r) for r in reports], W.sig_raw(ds)))
    res.obs("composed", len(reports))
    if not res.served(run):
        if b"rust_decimal" in run.err:
            res.viols.clear()
            res.inconclusive += 1
            return
    else:
        judge_format(reports, text, path, run.responses()[0].get("result"), "Warning" if warn else "Error", res, more)
        alone = [x.get("result") for x in run.responses()[1:]]
        if all(isinstance(x, str) for x in alone):
            # each as it is alone, what is annotated as it is, and a blank line between them
            want = "\n".join(x + (r["annotation"] + "\n" if "annotation" in r else "") for x, r in zip(alone, reports))
            got = run.responses()[0].get("result")
            if got != want:
                res.viol("format.composed", f"{got!r} is not made of its parts, {want!r}"[:1500])
    if res.viols:
        res.files.update(ledger=text, reports=json.dumps(reports, ensure_ascii=False))
