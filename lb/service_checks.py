"""Checks of the service itself: determinism, the protocol, robustness, logging, and what it does with what it refuses."""
import copy
import json
import os
import random
import re
import shutil
import subprocess
from decimal import Decimal

from . import booking_checks as B, compare, gen, model, source_checks as S, wire_checks as W
from .compare import lit, show
from .core import BadOutput, Session, dumps, loads, req
from .dec import D, Overflow

DEAD = (model.Uncertain, model.KnownDefect, Overflow)
QUESTIONS = ["parser.plugins", "parser.directives", "parser.options", "book"]

# arithmetic beyond the range of the number type, or division by zero, ends the process: recorded findings
ARITH = re.compile(r"panicked at [^\n]*rust_decimal-[^\n]*\n(Division by zero|Addition overflowed|Subtraction overflowed|Multiplication overflowed)")


CURRENCY = re.compile(r"panicked at [^\n]*beancount-parser-lima-[^\n]*/types\.rs[^\n]*\ncalled `Option::unwrap\(\)` on a `None` value")


def arithmetic_death(run, *texts):
    """died of a recorded finding: arithmetic, in a ledger which has such arithmetic to do; or an option's currency which
    ends in a character of several bytes"""
    if run.rc == 101 and CURRENCY.search(run.err.decode(errors="replace")):
        return any(re.search(r'option\s+"(inferred_tolerance_default|operating_currency|conversion_currency)"\s+"[^"]*[^\x00-\x7f]', t) for t in texts)
    if run.rc != 101 or not ARITH.search(run.err.decode(errors="replace")):
        return False
    t = "\n".join(texts)
    if b"Division" in run.err:
        return "/" in t or "#" in t or "@@" in t or "total" in t
    return bool(re.search(r"[0-9][0-9,.]{10,}", t)) or re.search(r"[0-9] *[eE]\+?[0-9]", t) is not None or "*" in t


# ------------------------------------------------------------- C14: the same question, the same answer

def source(ctx, rng):
    """a ledger in a directory of its own: (path, L or None, files text, faulty)"""
    d = ctx.fresh()
    k = rng.random()
    if k < 0.5:
        L = B.make(rng, rng.choice([B.ERRS, B.DIAG, B.PAD, B.FIELDS, B.LOTS, B.BAL, B.INTERP])(rng))
        p = os.path.join(d, "l.beancount")
        with open(p, "wb") as f:
            f.write(L.text.encode())
        return p, L.led, L.text, L.ds, False
    if k < 0.75:
        L = B.make(rng, rng.choice([B.ERRS, B.PAD, B.FIELDS, B.DIAG])(rng))
        bu = S.Bundle(rng, L.ds, gen.interleave(L.ds, rng), L.optlines, S.gen_plugins(rng))
        led = model.Ledger(L.opts)
        led.run(bu.ds)
        bu.write(d)
        return os.path.join(d, "root.beancount"), led, bu.show(), bu.ds, False
    # faults in several files
    planted = False
    ds, text, spans = W.raw_ledger(rng, n=rng.choice([4, 10, 20]))
    bu = S.Bundle(rng, ds, gen.interleave(ds, rng), (), (), stacks=False)
    for n in list(bu.text):
        if rng.random() < 0.6:
            planted = True
            for _ in range(rng.randrange(1, 3)):
                st = sorted(s for s, _, _ in bu.where[n].values())
                b = bu.text[n].encode()
                at = rng.choice(st + [len(b)])
                bu.text[n] = (b[:at] + (rng.choice(S.BADLINES) + "\n").encode() + b[at:]).decode()
                bu.where[n] = {}
    bu.write(d)
    return os.path.join(d, "root.beancount"), None, bu.show(), ds, planted


def disturbance(rng, ds):
    """a request which is nobody's business"""
    k = rng.randrange(8)
    if k == 0:
        return req("parser.create-synthetic-spans", 7, params=[{"name": rng.choice(["a", "b"]), "content": rng.choice(["x\n", "2020-01-01 open Assets:A\n"])}])
    if k == 1:
        return rng.choice(["", "garbage", "{}", "[]", '{"jsonrpc":"2.0","id":3,"method":"nope"}', '{"jsonrpc":"1.0","id":3,"method":"status"}'])
    if k == 2:
        return req("status", 5)
    if k == 3:
        return req("book", 5, params=ds[:rng.randrange(len(ds) + 1)]) if ds else req("book", 5, params=[])
    if k == 4 and ds:
        sub = [d for d in ds if rng.random() < 0.6]
        return req("book", 5, params=sub)
    if k == 5:
        return req("book", 5, params=[{"dct": "open", "date": "2001-01-01", "acc": "Assets:Elsewhere", "currencies": ["XXX"], "booking": "fifo"}])
    if k == 6:
        return req("parser.resolve-spans", 5, params=[[0, 0, 10], [9, 9, 9]])
    return req("parser.format-errors", 5, params=[{"message": "m", "reason": "r", "span": [0, 0, 1]}])


def large(rng, ds):
    """many more directives than a ledger has"""
    n = rng.choice([40, 100, 300, 1000]) + len(ds)
    out = [{"dct": "open", "date": "2001-01-01", "acc": f"Assets:Elsewhere:N{k}", "currencies": ["XXX"] if k % 2 else [], "booking": rng.choice(["fifo", "lifo", "strict", "none", "hifo"])} for k in range(n)]
    if rng.random() < 0.5:
        out += ds
    return out


def loose(r):
    r = W.canon(r)
    if compare.kind_of(r["reason"]) == "booking":
        r.pop("message", None)
        r["reason"] = "booking"
        r["span"] = None if r.get("span") is None else r["span"][0]
        r["idx"] = None if r.get("idx") is None else r["idx"][0]
        r.pop("contexts", None)
    return r


def unopened_sale(p, q):
    """one complaint is that a transaction cannot be booked, the other that it can but may not"""
    first = lambda x: x[0] if isinstance(x, list) else x
    kinds = {compare.kind_of(r["reason"]) if r["reason"] != "booking" else "booking" for r in (p, q)}
    return "booking" in kinds and len(kinds) == 2 and kinds <= {"booking", "acc-not-open", "acc-closed", "currency"} and first(p.get("idx")) == first(q.get("idx")) \
        and first(p.get("span")) == first(q.get("span"))


def same_answer(a, b, led, exact=False):
    """two answers to one question of one file"""
    if ("result" in a) != ("result" in b):
        return f"{show(a)[:300]} vs {show(b)[:300]}"
    if "result" in a:
        return W.differing(W.canon(a["result"]), W.canon(b["result"]))
    x, y = a["error"], b["error"]
    if (lit(x["code"]), x["message"]) != (lit(y["code"]), y["message"]) or ("data" in x) != ("data" in y):
        return f"{show(x)[:300]} vs {show(y)[:300]}"
    if "data" in x:
        if led is None and exact:
            return W.differing(W.canon(x["data"]), W.canon(y["data"]))
        if led is None:
            # which of several faults of one transaction is complained of may be chosen at random by a dependency
            p, q = [loose(r) for r in x["data"]], [loose(r) for r in y["data"]]
            if len(p) == len(q):
                # and whether a sale from an account which is not open is booked, to be complained of only then,
                # depends on which currency of the transaction a dependency takes first (the finding group-order)
                keep = [k for k in range(len(p)) if not unopened_sale(p[k], q[k])]
                p, q = [p[k] for k in keep], [q[k] for k in keep]
            return W.differing(p, q)
        strip = lambda rs: [{k: W.canon(v) for k, v in r.items() if k not in ("message", "reason")} | {"reason": r["reason"]} for r in rs]
        return W.same_reports(strip(x["data"]), strip(y["data"]), led)
    return None


def kind_repeat(ctx, rng, res):
    try:
        path, led, text, ds, planted = source(ctx, rng)
    except DEAD:
        res.inconclusive += 1
        return
    asks = {m: req(m, 0) for m in QUESTIONS}
    asks["status"] = req("status", 0)
    ref_run = ctx.serve(path, list(asks.values()))
    res.case((led is None, sorted(led.stats) if led else S_shape(text), text.count("==>")))
    res.obs("unparsable" if led is None else "refused" if led.errors else "booked")

    def died(run):
        if arithmetic_death(run, text):
            res.inconclusive += 1
        else:
            res.served(run)
        res.files["files"] = text
    if ref_run.rc != 0 or len(ref_run.raw) != len(asks):
        return died(ref_run)
    ref = dict(zip(asks, ref_run.responses()))
    # complaints of the parser are always the same, in the same order
    exact = "error" in ref["parser.directives"]
    # once there are answers, they may be asked about
    more = {}
    if "result" in ref["parser.directives"]:
        more["book-parsed"] = '{"jsonrpc":"2.0","id":0,"method":"book","params":%s}' % W.dumps_num(ref["parser.directives"]["result"]["directives"])
        more["resolve"] = req("parser.resolve-spans", 0, params=[[int(y) for y in x["span"]] for x in ref["parser.directives"]["result"]["directives"][:30]])
    for m in ("book", "parser.directives"):
        e = ref[m].get("error")
        if e and lit(e["code"]) == "2":
            more["format"] = '{"jsonrpc":"2.0","id":0,"method":"parser.format-errors","params":%s}' % W.dumps_num(e["data"])
            break
    if more:
        run = ctx.serve(path, list(more.values()))
        if run.rc != 0 or len(run.raw) != len(more):
            return died(run)
        ref.update(zip(more, run.responses()))
        asks.update(more)
    if res.sample is None and led is not None and led.errors:
        res.sample = {"files": text[:800]}
    for proc in range(rng.choice([2, 3])):
        keys = [rng.choice(list(asks)) for _ in range(rng.randrange(4, 14))]
        lines, plan = [], []
        if proc == 0 and rng.random() < 0.06:
            # over and over
            keys += [rng.choice(["book", "book", "book", rng.choice(list(asks))]) for _ in range(rng.choice([40, 80, 150]))]
            res.obs("asked-often")
        if rng.random() < 0.25:
            # something much larger than the ledger, and then again the ledger
            lines.append(req("book", 5, params=large(rng, ds)))
            plan.append(None)
            keys[:0] = [rng.choice(["book", "book", rng.choice(list(asks))])]
            res.obs("large-between")
        for k in keys:
            while rng.random() < 0.35:
                lines.append(disturbance(rng, ds))
                plan.append(None)
            lines.append(asks[k])
            plan.append(k)
        env = ctx.env(TZ=rng.choice(["UTC", "Pacific/Auckland", "America/New_York"]), LANG=rng.choice(["C", "C.UTF-8", "tr_TR.UTF-8"]),
                      LIMABEAN_UBERJAR="x", BEANFILE="/nowhere")
        cwd = rng.choice([None, "/", os.path.dirname(path)])
        run = ctx.serve(path, lines, env=env, cwd=cwd)
        if run.rc != 0 or len(run.raw) != len(lines):
            return died(run)
        for k, a in zip(plan, run.responses()):
            if k is None:
                continue
            d = same_answer(ref[k], a, led, exact)
            res.obs("answer-repeated")
            if d:
                res.viol("nondeterministic", f"{k}: asked again, in another process: {d}", files=text, requests="\n".join(lines))
                return
        if proc:
            res.obs("processes")


def S_shape(text):
    return tuple(l in text for l in S.BADLINES)


def kind_snapshot(ctx, rng, res):
    """the answers are of the file as it was when the service started"""
    try:
        path, led, text, ds, planted = source(ctx, rng)
    except DEAD:
        res.inconclusive += 1
        return
    ms = QUESTIONS + ["resolve"]
    line = lambda m: req("parser.resolve-spans", 1, params=[[0, 0, 40], [0, 5, 25]]) if m == "resolve" else req(m, 1)
    s = Session(ctx, path)
    first = {}
    order = ms[:]
    rng.shuffle(order)
    what = rng.choice(["rewrite", "delete", "truncate", "append", "rename"])
    try:
        s.ask(req("status", 0))
        for m in order[:rng.randrange(0, 5)]:
            first[m] = s.ask(line(m))
        if s.trouble is None:
            before = ctx_copy(os.path.dirname(path))
            for base, _, fs in os.walk(os.path.dirname(path)):
                for f in fs:
                    q = os.path.join(base, f)
                    if what == "delete":
                        os.unlink(q)
                    elif what == "truncate":
                        open(q, "w").close()
                    elif what == "append":
                        with open(q, "a") as g:
                            g.write('\n2020-01-01 open Assets:Added\ngarbage\n')
                    elif what == "rename":
                        os.rename(q, q + ".old")
                    else:
                        with open(q, "w") as g:
                            g.write("2019-01-01 open Assets:Other\n")
            late = {m: s.ask(line(m)) for m in ms if s.trouble is None}
    finally:
        rest, rc, err = s.close()
    res.case((what, sorted(led.stats) if led else S_shape(text)))
    res.obs("changed-under-it-" + what)

    class R:
        pass
    R.rc, R.err = rc, err
    if s.trouble or rc != 0 or rest:
        if arithmetic_death(R, text):
            res.inconclusive += 1
            return
        res.viol("session", f"{s.trouble} rc {rc} {err[-300:]!r} {rest[:200]!r}", files=text)
        return
    # a second process, of the files as they were
    for q, t in before.items():
        with open(q, "wb") as g:
            g.write(t)
    run = ctx.serve(path, [line(m) for m in ms])
    if not res.served(run):
        return
    now = dict(zip(ms, run.responses()))
    for m, a in now.items():
        for b in (first.get(m), late.get(m)):
            if b is not None:
                d = same_answer(a, b, led, "error" in now["parser.directives"])
                res.obs("snapshot-answer")
                if d:
                    res.viol("snapshot", f"{m}: after {what} of the file: {d}", files=text)
                    return


def ctx_copy(d):
    out = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(base, f)
            with open(q, "rb") as g:
                out[q] = g.read()
    return out


# ------------------------------------------------------------- C15: the protocol

IDS = ["0", "1", "-1", "42", "9007199254740993", "18446744073709551615", "123456789012345678901234567890", "1.5", "-0.25", "1e3", "0.10",
       '""', '"a"', '"caf\u00e9"', '"\\u6771"', '"a\\"b"', '"a\\nb"', '"null"', '"0"', '"%s"' % ("x" * 3000), "null", None]


def id_matches(lit_id, got):
    """the id of a request, as written, against the id of the answer"""
    if lit_id is None or lit_id == "null":
        return got is None
    if lit_id.startswith('"'):
        return got == json.loads(lit_id) and isinstance(got, str)
    if not isinstance(got, Decimal):
        return False
    if re.fullmatch(r"-?[0-9]+", lit_id):
        return lit(got) == lit_id
    return Decimal(lit_id) == got


def valid_requests(rng, ds):
    """method -> params text"""
    out = {"status": None, "parser.plugins": None, "parser.directives": None, "parser.options": None, "book": None}
    out["book "] = dumps(ds) if ds else "[]"
    out["parser.resolve-spans"] = rng.choice(["[]", "[[0,0,10]]", "[[0,0,10],[0,3,4]]"])
    out["parser.format-errors"] = rng.choice(["[]", '[{"message":"m","reason":"r","span":[0,0,4]}]'])
    out["parser.format-warnings"] = '[{"message":"m","reason":"r","span":[0,0,4],"related":[["see",[0,2,3]]],"annotation":"note"}]'
    return out


def compose(rng, method, params, idl, jsonrpc='"2.0"', extra=True):
    """a request in some member order, with or without spaces and other members"""
    ms = []
    if jsonrpc is not None:
        ms.append(("jsonrpc", jsonrpc))
    if method is not None:
        ms.append(("method", method if method.startswith('"') else json.dumps(method.strip())))
    if idl is not None:
        ms.append(("id", idl))
    if params is not None:
        ms.append(("params", params))
    elif rng.random() < 0.1 and method and method.strip() in ("book",):
        ms.append(("params", "null"))
    if extra and rng.random() < 0.15:
        ms.append((rng.choice(["x", "meta", "Params"]), rng.choice(["1", "null", '{"id":7,"method":"status"}', '["a"]'])))
    rng.shuffle(ms)
    sp = rng.choice(["", "", " ", "\t", "  "])
    return rng.choice(["", "", " ", "\t "]) + "{" + sp + ("," + sp).join(f'"{k}"{sp}:{sp}{v}' for k, v in ms) + sp + "}" + rng.choice(["", "", " ", " \t"])


def bad_line(rng):
    """a line which is no request: (text, codes allowed, id as written, or () for any of null and the one written)"""
    idl = rng.choice([x for x in IDS if x not in (None,)])
    k = rng.randrange(12)
    if k == 0:
        return rng.choice(["", "   ", "\t"]), ("-32700",), None
    if k == 1:
        return rng.choice(["garbage", "{", "}", "[", "nul", '"', "{]", "\u6771\u4eac", "{'a':1}", "// x", '{"jsonrpc":"2.0","id":1,"method":"status"} x',
                           '{"jsonrpc":"2.0","id":1,"method":"status"}{"jsonrpc":"2.0","id":2,"method":"status"}']), ("-32700",), None
    if k == 2:
        t = compose(rng, "status", None, idl).rstrip()
        return t[:rng.randrange(1, len(t))].strip() or "{", ("-32700",), None
    if k == 3:
        return rng.choice(["[]", "{}", "1", "null", "true", '"status"', '[{"jsonrpc":"2.0","id":1,"method":"status"}]']), None, None
    if k == 4:
        return compose(rng, rng.choice(["nope", "Book", "parser", "parser.Options", "", "status ", "parser.resolve_spans"]).replace("status ", '"status "'), None, idl), None, (idl,)
    if k == 5:
        return compose(rng, "status", None, idl, jsonrpc=rng.choice(['"1.0"', '"2"', '"2.0 "', '""'])), ("-32600",), idl
    if k == 6:
        return compose(rng, "status", None, idl, jsonrpc=rng.choice(["2.0", "null", None, "[]"])), None, (idl,)
    if k == 7:
        return compose(rng, None, None, idl), None, (idl,)
    if k == 8:
        return compose(rng, rng.choice(["parser.resolve-spans", "parser.format-errors", "parser.create-synthetic-spans"]),
                       rng.choice([None, "null", "{}", "1", '"x"', "[1]", '[["a",0,1]]', "[[0,0]]", "[[0,-1,5]]", '[{"name":"x"}]', '[{"message":"m"}]', '[null]']), idl), None, (idl,)
    if k == 9:
        return compose(rng, "book", rng.choice(["{}", "1", '"x"', "[1]", "[{}]", '[{"dct":"open"}]', '[{"dct":"nope","date":"2020-01-01"}]',
                                                '[{"dct":"open","date":"2020-13-01","acc":"Assets:A"}]', '[{"dct":"open","date":"yesterday","acc":"Assets:A"}]']), idl), None, (idl,)
    if k == 10:
        return compose(rng, "status", None, rng.choice(["true", "[]", "{}", "[1]", "false"])), None, None
    return compose(rng, rng.choice(["1", "null", "[]", "{}"]).join(["", ""]) and "\"" + rng.choice(["STATUS", "parser.directives.x"]) + "\"", None, idl), None, (idl,)


def judge_response(a, codes, idl, res, text):
    if not isinstance(a, dict) or a.get("jsonrpc") != "2.0" or "id" not in a or set(a) - {"jsonrpc", "id", "result", "error"} or ("result" in a) == ("error" in a):
        res.viol("shape", f"answer to {text[:200]!r} is {show(a)[:300]}")
        return False
    if isinstance(idl, tuple):
        if not (a["id"] is None or id_matches(idl[0], a["id"])):
            res.viol("id", f"answer to {text[:200]!r} has id {show(a['id'])}")
            return False
    elif not id_matches(idl, a["id"]):
        res.viol("id", f"answer to {text[:200]!r} has id {show(a['id'])}")
        return False
    if codes is not None or "error" in a:
        e = a.get("error")
        if not isinstance(e, dict) or not isinstance(e.get("code"), Decimal) or not isinstance(e.get("message"), str) or not e["message"]:
            res.viol("error-shape", f"answer to {text[:200]!r} is {show(a)[:300]}")
            return False
    if codes is not None and codes and lit(a["error"]["code"]) not in codes:
        res.viol("code", f"answer to {text[:200]!r} has code {lit(a['error']['code'])}, expected {codes}")
        return False
    return True


def kind_protocol(ctx, rng, res):
    """any sequence of lines: one answer each, in order, to whom it was asked"""
    try:
        L = B.make(rng, dict(rng.choice([B.FIELDS, B.ERRS])(rng), n=rng.choice([3, 6, 10])))
    except DEAD:
        res.inconclusive += 1
        return
    valid = valid_requests(rng, L.ds)
    path = ctx.write("p.beancount", L.text)
    names = list(valid)
    ref_run = ctx.serve(path, ['{"jsonrpc":"2.0","id":1,"method":"%s"%s}' % (m.strip(), "" if valid[m] is None else ',"params":' + valid[m]) for m in names])
    if not res.served(ref_run):
        res.files["ledger"] = L.text
        return
    ref = dict(zip(names, ref_run.responses()))
    lines, plan = [], []
    pbad = rng.choice([0.1, 0.3, 0.6])
    for _ in range(rng.choice([1, 4, 12, 25])):
        if rng.random() < pbad:
            t, codes, idl = bad_line(rng)
            lines.append(t)
            plan.append((None, codes or (), idl))
        else:
            m = rng.choice(names)
            idl = rng.choice(IDS)
            lines.append(compose(rng, m, valid[m], idl))
            plan.append((m, None, idl))
    eol = rng.choice(["\n", "\n", "\r\n"])
    final = rng.random() < 0.8 or not lines[-1].strip()
    mode = rng.choice(["batch", "batch", "interactive", "pieces"])
    res.case((tuple(m or "bad" for m, _, _ in plan), eol, final, mode))
    res.obs("mode-" + mode)
    res.obs("crlf" if eol != "\n" else "lf")
    if not final:
        res.obs("no-final-newline")
    if res.sample is None:
        res.sample = {"requests": [l[:200] for l in lines[:6]]}
    if mode == "batch":
        run = ctx.serve(path, lines, eol=eol, final=final)
        if not res.served(run):
            res.files.update(ledger=L.text, requests="\n".join(lines))
            return
        answers = run.responses()
        if run.err:
            res.viol("stderr", f"wrote {run.err[:300]!r} to standard error")
    else:
        s = Session(ctx, path)
        answers = []
        for k, l in enumerate(lines):
            last = k == len(lines) - 1
            data = (l + (eol if final or not last else "")).encode()
            if mode == "pieces":
                cuts = sorted(rng.sample(range(1, len(data)), min(len(data) - 1, rng.randrange(0, 3)))) if len(data) > 1 else []
                prev = 0
                for c in cuts:
                    s.send(data[prev:c])
                    if not s.quiet(0.001) and data[:c].count(b"\n") == 0:
                        s.trouble = f"an answer before the request {data!r} was complete"
                    prev = c
                s.send(data[prev:])
            else:
                s.send(data)
            if last and not final:
                break
            got = s.line()
            if got is None or s.trouble:
                break
            try:
                answers.append(loads(got.decode()))
            except ValueError as e:
                s.trouble = f"not a line of JSON ({e}): {got[:300]!r}"
                break
        rest, rc, err = s.close()
        if not final and s.trouble is None:
            try:
                answers += [loads(x) for x in rest.decode().split("\n") if x]
            except ValueError as e:
                s.trouble = f"not a line of JSON: {rest[:300]!r}"
            rest = b""
        if s.trouble or rc != 0 or rest or len(answers) != len(lines):
            res.viol("interactive", f"{mode}: {s.trouble}; exit {rc}; {len(answers)} of {len(lines)} answers; left over {rest[:200]!r}; {err[-300:]!r}")
    for (m, codes, idl), a, t in zip(plan, answers, lines):
        if res.viols:
            break
        if m is None:
            res.obs("bad-answered")
            if "error" not in a:
                res.viol("accepted", f"{t[:300]!r} was answered {show(a)[:300]}")
                break
            judge_response(a, codes, idl, res, t)
        else:
            res.obs("answered-" + m.strip())
            if not judge_response(a, None, idl, res, t):
                break
            d = same_answer(ref[m], a, L.led if m.strip() == "book" else model.Ledger({}))
            if d:
                res.viol("answer", f"{t[:200]!r}: {d}")
    if res.viols:
        res.files.update(ledger=L.text, requests="\n".join(lines))


def kind_large(ctx, rng, res):
    """requests and answers of any size, many at once, while the reader is slow"""
    n = rng.choice([300, 1500])
    ds = [{"dct": "open", "date": "2020-01-01", "acc": f"Assets:A{k}"} for k in range(n)]
    ds += [{"dct": "note", "date": "2020-01-02", "acc": f"Assets:A{rng.randrange(n)}", "comment": rng.choice(gen.STRINGS) * rng.choice([1, 400])} for _ in range(n)]
    path = ctx.write("big.beancount", gen.render(ds[:n], ())[0])
    lines = []
    for k in range(rng.choice([3, 20])):
        lines.append(rng.choice([req("book", k, params=ds), req("book", k), req("parser.directives", k)]))
    run = ctx.serve(path, lines)
    res.case((n, tuple(len(l) for l in lines)))
    res.obs("large-bytes", sum(map(len, lines)) + len(run.out))
    res.obs("large")
    if res.served(run):
        for k, a in enumerate(run.responses()):
            if lit(a.get("id")) != str(k) or "result" not in a:
                res.viol("large", f"request {k}: {show(a)[:300]}")
                break
            got = a["result"]["directives"]
            if len(got) != (len(ds) if '"params"' in lines[k] else n) or any(g.get("acc") != d["acc"] or g.get("comment") != d.get("comment") for g, d in zip(got, ds)):
                res.viol("large", f"request {k}: {len(got)} directives, not those given")
                break


def kind_lengthy(ctx, rng, res):
    """a conversation of any length, of requests of any size"""
    path = ctx.write("l.beancount", "2020-01-01 open Assets:A\n")
    k = rng.random()
    if k < 0.5:
        n = rng.choice([257, 520, 1100, 2100])
    elif k < 0.6:
        n = rng.choice([33000, 66000])
    else:
        n = rng.choice([2, 5])
    big = set(rng.sample(range(n), 1 if n > 5 else n - 1)) if n <= 5 or rng.random() < 0.2 else set()
    lines, want = [], []
    cheap = ["status"] if n > 9000 else ["status", "status", "parser.plugins", "book", "parser.directives", "nothing"]
    for k in range(n):
        if k in big:
            size = rng.choice([70000, 1100000, 5 << 20, 9 << 20, 18 << 20])
            text = rng.choice(["x", "caf\u00e9 ", "\U0001f600"])
            text *= size // len(text.encode())
            if rng.random() < 0.5:
                lines.append('{"jsonrpc":"2.0","id":%d,"method":"status","x":"%s"}' % (k, text))
                want.append(None)
            else:
                lines.append('{"jsonrpc":"2.0","id":%d,"method":"book","params":[{"dct":"note","date":"2020-01-02","acc":"Assets:A","comment":"%s"}]}' % (k, text))
                want.append(text)
            res.obs("huge-request")
            res.obs("huge-bytes", size)
        else:
            m = rng.choice(cheap)
            lines.append(req(m, k))
            want.append(m)
    run = ctx.serve(path, lines, env=logged(ctx, rng, res) if n < 9000 else None)
    res.case((n, len(big)))
    res.obs("lengthy")
    if not res.served(run):
        return
    seen = {}
    for k, (a, w) in enumerate(zip(run.responses(), want)):
        if lit(a.get("id")) != str(k) and w != "nothing":
            res.viol("lengthy", f"request {k} of {n}: {show(a)[:200]}")
            break
        if k in big:
            ok = a.get("result", 0) is None if w is None else "error" in a or [x.get("comment") for x in a["result"]["directives"]] == [w]
        elif w == "nothing":
            ok = "error" in a
        else:
            x = W.canon({j: y for j, y in a.items() if j != "id"})
            ok = "result" in a and not W.differing(seen.setdefault(w, x), x)
        if not ok:
            res.viol("lengthy", f"request {k} of {n}, of {len(lines[k])} bytes: {show(a)[:200]}")
            break


def kind_cut(ctx, rng, res):
    """input that stops being text: everything before it has been answered"""
    path = ctx.write("c.beancount", "2020-01-01 open Assets:A\n")
    n = rng.randrange(0, 6)
    data = b"".join(req(rng.choice(["status", "book", "parser.options"]), k).encode() + b"\n" for k in range(n)) + rng.choice([b"\xff\xfe\n", b'{"a":"\xc3"}\n', b"\x80"])
    p = subprocess.run([ctx.bins["limabean-pod"], "serve", path], input=data, capture_output=True, env=ctx.env(), timeout=120)
    res.case((n, data[-6:]))
    res.obs("not-text")
    ls = p.stdout.decode(errors="replace").splitlines()
    ids = []
    for l in ls[:n]:
        try:
            ids.append(lit(loads(l).get("id")))
        except ValueError:
            res.viol("cut", f"not JSON: {l[:200]!r}")
    if ids != [str(k) for k in range(n)]:
        res.viol("cut", f"{n} requests before input that is not UTF-8, answers to {ids}")
    if b"panicked" in p.stderr or (p.returncode is not None and p.returncode < 0):
        res.viol("cut", f"exit {p.returncode}: {p.stderr[-300:]!r}")


# ------------------------------------------------------------- C16: nothing kills it

TOKENS = ["2020-01-01", "open", "close", "balance", "pad", "txn", "*", "!", "Assets:A", "Assets", ":", "USD", "1", "-1", "0", "0.00", "(", ")", "{", "}", "{}", "{{",
          "}}", "#", "@", "@@", "~", ",", "\"", "\"x\"", "#tag", "^link", "key:", "key: 1", "NULL", "TRUE", "option", "include", "plugin", "pushtag", "poptag", "pushmeta",
          "popmeta", "price", "note", "document", "event", "query", "custom", "commodity", ";", "\n", "\n  ", "\n\n", "\t", "\\", "\\\"", "\u6771", "\U0001f600", "e\u0301",
          "\u2028", "\x00", "\x1b", "\ufeff", "9999-12-31", "0000-01-01", "0001-01-01", "2020-02-29", "2021-02-29", "99999-01-01", "1e5", ".5", "5.", "1,000", "1,0", "--1", "+1", "'A",
          "HIFO", "\"STRICT\"", "2020-01-01 * \"x\"\n  Assets:A  1 USD\n  Assets:B\n", "2020-01-01 open Assets:A\n", "option \"booking_method\" \"FIFO\"\n", "*", "**", "/", "-", "+"]


def mutate_text(rng, t):
    for _ in range(rng.choice([1, 1, 2, 4, 10])):
        k = rng.randrange(7)
        i = rng.randrange(len(t) + 1)
        j = min(len(t), i + rng.choice([1, 1, 2, 5, 20, 100]))
        if k == 0:
            t = t[:i] + t[j:]
        elif k == 1:
            t = t[:i] + rng.choice(TOKENS) + t[i:]
        elif k == 2:
            t = t[:i] + rng.choice(TOKENS) + t[j:]
        elif k == 3:
            t = t[:i] + t[i:j] * rng.choice([2, 3]) + t[j:]
        elif k == 4:
            ls = t.split("\n")
            a, b = rng.randrange(len(ls)), rng.randrange(len(ls))
            ls[a], ls[b] = ls[b], ls[a]
            t = "\n".join(ls)
        elif k == 5:
            ls = t.split("\n")
            a = rng.randrange(len(ls))
            ls.insert(rng.randrange(len(ls)), ls[a])
            t = "\n".join(ls)
        else:
            ws = re.split(r"(\s+)", t)
            a, b = rng.randrange(len(ws)), rng.randrange(len(ws))
            ws[a] = ws[b]
            t = "".join(ws)
    return t


def base_text(rng):
    try:
        if rng.random() < 0.3:
            return W.raw_ledger(rng, n=rng.choice([1, 4, 10]))[1]
        return B.make(rng, dict(rng.choice([B.FIELDS, B.ERRS, B.LOTS, B.PAD, B.DIAG, B.INTERP, B.PREC])(rng), n=rng.choice([3, 6, 10, 20]))).text
    except DEAD:
        return "2020-01-01 open Assets:A\n2020-01-02 * \"x\"\n  Assets:A 1 USD\n  Assets:A\n"


def logged(ctx, rng, res):
    """the environment of a case which may be logged, at any level"""
    if rng.random() > 0.35:
        return None
    res.obs("with-log")
    return ctx.env(LIMABEAN_POD_LOG=ctx.path("pod.log"), LIMABEAN_POD_LOG_LEVEL=rng.choice(["trace", "debug", "debug", "info"]))


def kind_mutated_files(ctx, rng, res):
    t = mutate_text(rng, base_text(rng))
    b = t.encode("utf-8", "surrogateescape")
    if rng.random() < 0.05:
        b = b.replace(b"\n", b"\r\n")
    path = ctx.write("m.beancount", b)
    ms = QUESTIONS[:] + ["status"]
    rng.shuffle(ms)
    lines = [req(m, k) for k, m in enumerate(ms)]
    run = ctx.serve(path, lines, env=logged(ctx, rng, res))
    ok = len(run.raw) == len(lines) and run.rc == 0
    rs = run.responses() if ok else []
    shape = tuple(sorted(("result" if "result" in a else lit(a["error"]["code"])) for a in rs))
    e = next((a["error"] for a in rs if "error" in a and lit(a["error"]["code"]) == "2"), None)
    res.case((shape, len(e["data"]) if e else 0, e["data"][0]["reason"][:40] if e else None, t.count("\n")))
    res.obs("mutated-file")
    res.obs("mutated-" + ("parsed" if any("result" in a for m, a in zip(ms, rs) if m == "parser.directives") else "refused"))
    if not ok:
        if arithmetic_death(run, t):
            res.obs("arithmetic-death")
            res.inconclusive += 1
            return
        res.served(run)
        res.files["ledger"] = t
        return
    # everything that was said may be asked about again
    spans, more = [], []
    for a in rs:
        r = a.get("result")
        if isinstance(r, dict):
            for d in r.get("directives", ()):
                if "span" in d:
                    spans.append([int(y) for y in d["span"]])
        for x in (a.get("error") or {}).get("data") or ():
            spans.append([int(y) for y in x["span"]])
    more.append(req("parser.resolve-spans", 0, params=spans))
    for a in rs:
        if "error" in a and a["error"].get("data"):
            more.append('{"jsonrpc":"2.0","id":1,"method":"%s","params":%s}' % (rng.choice(["parser.format-errors", "parser.format-warnings"]), W.dumps_num(a["error"]["data"])))
    for m, a in zip(ms, rs):
        if m == "parser.directives" and "result" in a:
            more.append('{"jsonrpc":"2.0","id":1,"method":"book","params":%s}' % W.dumps_num(a["result"]["directives"]))
    run = ctx.serve(path, more, env=logged(ctx, rng, res))
    if (run.rc != 0 or len(run.raw) != len(more)) and arithmetic_death(run, t):
        res.inconclusive += 1
        return
    if res.served(run):
        for a, l in zip(run.responses(), more):
            res.obs("asked-about")
            if "error" in a and lit(a["error"]["code"]) != "3":
                res.viol("asked-about", f"{l[:200]} answered {show(a)[:300]}")
                break
    if res.viols:
        res.files.update(ledger=t, requests="\n".join(more))


def widen(rng, accs):
    """account names as long, and as wide, as anybody's"""
    out = []
    for a in accs:
        if rng.random() < 0.4:
            a += rng.choice([":", ""]) + "".join(rng.choice(["ab", "\u00e9", "\u6771\u4eac", "X-1"]) for _ in range(rng.randrange(1, 30)))
            a = re.sub(r":([a-z\u00e9-])", r":A\1", a)
        out.append(a)
    return out


def kind_rich(ctx, rng, res):
    """ledgers with mistakes, whose every string is of any length, width and script: from file and as parameters, and with
    everything they say put back to the service"""
    prof = dict(rng.choice([B.ERRS, B.DIAG, B.PAD, B.FIELDS, B.BAL])(rng), n=rng.choice([6, 15, 30]), long=rng.choice([0.1, 0.35]))
    if rng.random() < 0.6:
        prof["accounts"] = widen(rng, gen.random_accounts(rng, rng.randrange(4, 12)))
    prof.pop("pool", None)
    try:
        L = B.make(rng, prof)
    except DEAD:
        res.inconclusive += 1
        return
    path = ctx.write("rich.beancount", L.text)
    extra = [req("book", 1, params=L.ds), req("book", gen.long_string(rng), params=L.ds)]
    lines = [req(m, k) for k, m in enumerate(QUESTIONS)] + extra
    run = ctx.serve(path, lines, env=logged(ctx, rng, res))
    res.case(B.profile_sig(L))
    res.obs("rich")
    if (run.rc != 0 or len(run.raw) != len(lines)) and arithmetic_death(run, L.text):
        res.inconclusive += 1
        return
    if res.served(run):
        rs = run.responses()
        more = []
        for a in rs:
            data = (a.get("error") or {}).get("data") or []
            ws = ((a.get("result") or {}) if isinstance(a.get("result"), dict) else {}).get("warnings") or []
            for e in data:
                res.obs("rich-errors")
                if e.get("annotation"):
                    res.obs("rich-annotated")
            for x, m in ((data, "parser.format-errors"), (ws, "parser.format-warnings")):
                if x:
                    more.append('{"jsonrpc":"2.0","id":%s,"method":"%s","params":%s}' % (json.dumps(gen.long_string(rng)), m, W.dumps_num(x)))
        for m in (gen.long_string(rng), "book" + gen.long_string(rng)):
            more.append(json.dumps({"jsonrpc": "2.0", "id": 3, "method": m, "params": {gen.long_string(rng): gen.long_string(rng)}}, ensure_ascii=False))
        more.append(json.dumps({"jsonrpc": "2.0", "id": 3, "method": "parser.create-synthetic-spans", "params": [{"name": gen.long_string(rng), "content": gen.long_string(rng)}]}, ensure_ascii=False))
        if more:
            run = ctx.serve(path, more, env=logged(ctx, rng, res))
            if res.served(run):
                for a, l in zip(run.responses(), more):
                    if not isinstance(a, dict) or ("result" in a) == ("error" in a):
                        res.viol("rich", f"{l[:200]} answered {show(a)[:300]}")
                        break
    if res.viols:
        res.files.update(ledger=L.text)


def mutate_json(rng, x, depth=0):
    """some other JSON value, like this one"""
    if rng.random() < 0.08 or depth > 12:
        return rng.choice([None, True, 0, -1, 2 ** 31, 2 ** 63, -2 ** 63, 2 ** 64, 10 ** 30, 0.5, "", "x", "\u6771", "\x00", [], {}, [[]], "2020-01-01", "9999-12-31", "Assets:A", "Assets", "assets:a",
                           "USD", "u", ["a"], {"a": 1}, "NaN", "Infinity", "1", 1e300, -0.0])
    if isinstance(x, dict):
        ks = list(x.items())
        if ks and rng.random() < 0.1:
            ks.pop(rng.randrange(len(ks)))
        if ks and rng.random() < 0.05:
            ks.append(rng.choice(ks))
        return {("x" + k if rng.random() < 0.02 else k): mutate_json(rng, v, depth + 1) for k, v in ks}
    if isinstance(x, list):
        l = [mutate_json(rng, v, depth + 1) for v in x]
        if l and rng.random() < 0.1:
            l.pop(rng.randrange(len(l)))
        if l and rng.random() < 0.1:
            l.insert(rng.randrange(len(l)), rng.choice(l))
        return l
    if isinstance(x, str) and len(x) == 10 and x[4:5] == "-" and rng.random() < 0.1:
        return rng.choice(["+1" + x, "+" + x, "-" + x, x + "Z", x + "T00:00", x[1:], "0000" + x[4:], x[:8] + "00", x[:5] + "13-01", x[:4] + "-02-30", x.replace("-", "/"), " " + x, x + " ",
                           "+012020-01-01", "+999999-12-31", "\u0662" + x[1:], x[:-1]])
    return x


def sparse(rng):
    """one directive, anything that may be left out left out or empty more often than not"""
    maybe = lambda d, k, v, p=0.35: d.__setitem__(k, v()) if rng.random() < p else None
    acc = lambda: rng.choice(["Assets:A", "Assets:B", "Assets:A:C", "Income:X"])
    cur = lambda: rng.choice(["USD", "GOOG"])
    num = lambda: rng.choice([0, 1, -1, 2.5])
    text = lambda: rng.choice(["", "x", "\u6771"])

    def meta():
        return {k: rng.choice([None, {"string": text()}, {"units": num(), "cur": cur()}, {"bool": True}, {"number": num()}, {"tag": text()}, {"link": text()}, {"acc": acc()}, {"cur": cur()}, {"date": "2020-01-02"}]) for k in rng.sample(["a", "b", "c"], rng.choice([0, 1, 2]))}

    def amount(ks):
        d = {}
        for k in ks:
            maybe(d, k, {"per-unit": num, "total": num, "cur": cur, "date": lambda: "2020-01-02", "label": text, "merge": lambda: rng.random() < 0.5}[k])
        return d

    def posting():
        p = {"acc": acc()}
        maybe(p, "flag", lambda: rng.choice(["*", "!"]))
        maybe(p, "units", num)
        maybe(p, "cur", cur)
        maybe(p, "cost-spec", lambda: amount(["per-unit", "total", "cur", "date", "label", "merge"]))
        maybe(p, "price-spec", lambda: amount(["per-unit", "total", "cur"]))
        common(p)
        return p

    def common(d):
        maybe(d, "tags", lambda: rng.sample(["t", "u"], rng.choice([0, 1, 2])))
        maybe(d, "links", lambda: rng.sample(["l", "m"], rng.choice([0, 1, 2])))
        maybe(d, "metadata", meta)
    d = {"date": rng.choice(["2020-01-02", "2020-01-03"]), "dct": rng.choice(["txn"] * 6 + ["open", "open", "close", "balance", "pad", "price", "commodity", "document", "note", "event", "query", "custom"])}
    k = d["dct"]
    if k == "txn":
        d["flag"] = rng.choice(["*", "!", "P", "txn"])
        maybe(d, "payee", text)
        maybe(d, "narration", text)
        d["postings"] = [posting() for _ in range(rng.choice([0, 0, 1, 2, 2, 3]))]
    elif k in ("open", "close", "balance", "pad", "document", "note"):
        d["acc"] = acc()
        if k == "open":
            maybe(d, "currencies", lambda: rng.sample(["USD", "GOOG"], rng.choice([0, 1, 2])))
            maybe(d, "booking", lambda: rng.choice(gen.METHODS))
        elif k == "balance":
            d.update(units=num(), cur=cur())
            maybe(d, "tolerance", lambda: rng.choice([0, 0.5]))
        elif k == "pad":
            d["source"] = acc()
        elif k == "document":
            d["path"] = text()
        elif k == "note":
            d["comment"] = text()
    elif k == "price":
        d.update(cur=cur(), price={"per-unit": num(), "cur": cur()})
    elif k == "commodity":
        d["cur"] = cur()
    elif k == "event":
        d.update(type=text(), description=text())
    elif k == "query":
        d.update(name=text(), content=text())
    else:
        d.update(type=text(), values=list(meta().values()))
    common(d)
    return d


SPARSE_OPENS = [{"dct": "open", "date": "2020-01-01", "acc": a} for a in ("Assets:A", "Assets:B", "Assets:A:C", "Income:X")]


def kind_sparse(ctx, rng, res):
    """directives with next to nothing in them are answered like any others, logged or not, and leave the next as it was"""
    path = ctx.write("s.beancount", rng.choice(["", "2020-01-01 open Assets:Z\n"]))
    batches = [[sparse(rng) for _ in range(rng.choice([1, 1, 1, 2, 5]))] for _ in range(rng.choice([5, 20]))]
    lines = [req("book", k, params=(rng.sample(SPARSE_OPENS, rng.choice([0, 4, 4, 4])) + b)) for k, b in enumerate(batches)] + [req("book", "last")]
    env = logged(ctx, rng, res)
    run = ctx.serve(path, lines, env=env)
    res.case(tuple(json.dumps(b) for b in batches))
    if res.sample is None:
        res.sample = {"requests": lines[:3]}
    if (run.rc != 0 or len(run.raw) != len(lines)) and arithmetic_death(run, *lines):
        res.inconclusive += 1
        return
    if res.served(run):
        for a, l in zip(run.responses(), lines):
            res.obs("sparse-" + ("booked" if "result" in a else "refused"))
            # what was refused for its shape would show nothing
            if a.get("error", {}).get("code") not in (None, -32000) and "data" not in a["error"]:
                res.viol("sparse", f"{l[:300]} answered {show(a)[:300]}")
                break
    if res.viols:
        res.files.update(requests="\n".join(lines))


def kind_mutated_requests(ctx, rng, res):
    """requests that are nearly right, over a healthy file: all answered, and the service none the worse"""
    try:
        L = B.make(rng, dict(rng.choice([B.FIELDS, B.ERRS, B.LOTS, B.PAD])(rng), n=rng.choice([3, 6, 10])))
    except DEAD:
        res.inconclusive += 1
        return
    n = len(L.text.encode())
    path = ctx.write("r.beancount", L.text)
    ds = json.loads(dumps(L.ds))
    span = lambda: [rng.choice([0, 0, 0, 1, 2, 2 ** 31, 2 ** 63]), rng.choice([0, rng.randrange(n), n, n + 1, 2 ** 63]), rng.choice([0, rng.randrange(n), rng.randrange(n), n, n + 1, 2 ** 40])]
    seeds = [lambda: {"jsonrpc": "2.0", "id": 1, "method": "book", "params": ds},
             lambda: {"jsonrpc": "2.0", "id": "x", "method": "book", "params": rng.sample(ds, len(ds))},
             lambda: {"jsonrpc": "2.0", "id": 1, "method": "parser.resolve-spans", "params": [span() for _ in range(6)]},
             lambda: {"jsonrpc": "2.0", "id": 1, "method": rng.choice(["parser.format-errors", "parser.format-warnings"]), "params": [
                 {"message": rng.choice(gen.STRINGS), "reason": rng.choice(gen.STRINGS), "span": span(), "related": [["l", span()]], "contexts": [["c", span()]],
                  "annotation": rng.choice(gen.STRINGS)} for _ in range(rng.randrange(1, 3))]},
             lambda: {"jsonrpc": "2.0", "id": 1, "method": "parser.create-synthetic-spans", "params": [{"name": rng.choice(gen.STRINGS), "content": rng.choice(gen.STRINGS)}]},
             lambda: {"jsonrpc": "2.0", "id": 1, "method": "status"}]
    lines = []
    for _ in range(rng.choice([10, 40])):
        x = rng.choice(seeds)()
        if rng.random() < 0.8:
            x = mutate_json(rng, x)
        t = json.dumps(x, ensure_ascii=rng.random() < 0.3, allow_nan=True)
        if rng.random() < 0.15:
            t = mutate_text(rng, t)
        t = t.encode("utf-8", "replace").decode("utf-8", "replace").replace("\n", " ").replace("\r", " ")
        lines.append(t)
    lines += [req("book", 777), req("parser.options", 778)]
    ref = ctx.serve(path, lines[-2:])
    if not res.served(ref):
        return
    run = ctx.serve(path, lines, env=logged(ctx, rng, res))
    res.case(tuple(len(l) for l in lines))
    res.obs("mutated-request", len(lines) - 2)
    if (run.rc != 0 or len(run.raw) != len(lines)) and arithmetic_death(run, L.text, *lines):
        res.inconclusive += 1
        return
    if res.served(run):
        rs = run.responses()
        for a, t in zip(rs, lines):
            res.obs("request-" + ("taken" if "result" in a else "refused"))
            if not isinstance(a, dict) or a.get("jsonrpc") != "2.0" or "id" not in a or ("result" in a) == ("error" in a):
                res.viol("shape", f"{t[:200]!r} answered {show(a)[:300]}")
        for a, b in zip(ref.responses(), rs[-2:]):
            d = same_answer(a, b, L.led)
            if d:
                res.viol("worse", f"after these requests: {d}")
    if res.viols:
        res.files.update(ledger=L.text, requests="\n".join(lines))


def kind_extremes(ctx, rng, res):
    """sizes and depths nobody writes by hand"""
    k = rng.randrange(10)
    n = rng.choice([200, 2000, 8000])
    wrong = None
    head = "2020-01-01 open Assets:A\n2020-01-01 open Assets:B\n"
    extra = []
    if k == 0:
        t = head + "2020-01-02 balance Assets:A " + "(" * n + "0" + ")" * n + " USD\n"
    elif k == 1:
        t = head + "2020-01-02 balance Assets:A " + "0+" * n + "0 USD\n"
    elif k == 2:
        t = head + '2020-01-02 * "' + "x\u00e9" * n + '"\n  Assets:A 1 USD\n  Assets:B\n'
    elif k == 3:
        t = head + "2020-01-02 *\n" + "  Assets:A 1 USD\n" * (n // 4) + "  Assets:B\n"
    elif k == 4:
        t = head + "".join(f"2020-01-02 *\n  Assets:A 1 AAPL {{{j + 1} USD}}\n  Assets:B\n" for j in range(n // 10)) + f"2020-01-03 *\n  Assets:A -{n // 20} AAPL {{}}\n  Assets:B\n"
    elif k == 5:
        acc = "Assets:" + ":".join("Sub%d" % j for j in range(n // 4))
        t = head + f"2020-01-01 open {acc}\n2020-01-02 *\n  {acc} 1 USD\n  Assets:B\n2020-01-03 balance Assets 2 USD\n2020-01-03 balance Assets:Sub0 1 USD\n"
    elif k == 6:
        t = head + "garbage\n" * (n // 20)
    elif k == 9:
        # as many mistakes as one likes, in the order of their days
        wrong = rng.choice([20, 130, 300, 700])
        faults = ["close Assets:C{j}", "open Assets:A", "*\n  Assets:A 1 USD\n  Assets:D{j}", "*\n  Assets:A 1 USD\n  Assets:B 1 USD", "balance Assets:D{j} 0 USD", "pad Assets:A Assets:D{j}"]
        faults = rng.sample(faults, rng.choice([1, 3, 6]))
        t = head + "".join("2020-02-02 " + rng.choice(faults).replace("{j}", str(j)) + "\n" for j in range(wrong))
    elif k == 7:
        t = head + "\n".join(f"pushtag #t{j}" for j in range(n // 20)) + "\n2020-01-02 note Assets:A \"x\"\n" + "\n".join(f"poptag #t{j}" for j in range(n // 20)) + "\n"
    else:
        t = head
        d = rng.choice([50, 120, 500, 5000])
        extra = ['{"jsonrpc":"2.0","id":1,"method":"status","x":' + "[" * d + "]" * d + "}", "[" * d, '{"a":' * d,
                 '{"jsonrpc":"2.0","id":1,"method":"book","params":[{"dct":"open","date":"2020-01-01","acc":"Assets:%s"}]}' % ("X" * d * 20)]
    path = ctx.write("x.beancount", t)
    lines = [req(m, j) for j, m in enumerate(QUESTIONS)] + extra + [req("status", 99)]
    run = ctx.serve(path, lines, env=logged(ctx, rng, res))
    res.case((k, n))
    res.obs("extreme")
    if res.served(run):
        rs = run.responses()
        for a in rs:
            if not isinstance(a, dict) or ("result" in a) == ("error" in a):
                res.viol("shape", show(a)[:300])
        if wrong is not None:
            got = len(rs[QUESTIONS.index("book")].get("error", {}).get("data", ()))
            res.obs("many-mistakes")
            if got != wrong:
                res.viol("many", f"{wrong} mistakes, {got} complaints")
        if lit(rs[-1].get("id")) != "99" or rs[-1].get("result", 0) is not None:
            res.viol("status", show(rs[-1])[:200])
    if res.viols:
        res.files.update(ledger=t[:20000], requests="\n".join(l[:2000] for l in lines))


def _arith_probe(text):
    def probe(ctx, res):
        run = ctx.ask(text, "book", "status")
        if run.rc == 0 and len(run.raw) == 2:
            return None
        if run.rc == 101 and ARITH.search(run.err.decode(errors="replace")):
            return "known"
        return f"exit {run.rc}: {run.err[-300:]!r}"
    return probe


def probe_currency(ctx, res):
    run = ctx.ask('option "operating_currency" "NZD\u6771"\n', "status")
    if run.rc == 0 and len(run.raw) == 1:
        return None
    return "known" if run.rc == 101 and CURRENCY.search(run.err.decode(errors="replace")) else f"exit {run.rc}: {run.err[-300:]!r}"


def _stack_probe(text):
    """the parser we use descends once for each"""
    def probe(ctx, res):
        run = ctx.ask(text, "status")
        if run.rc == 0 and len(run.raw) == 1:
            return None
        return "known" if run.rc == -6 and b"overflowed its stack" in run.err else f"exit {run.rc}: {run.err[-300:]!r}"
    return probe


probe_pragmas = _stack_probe("".join('plugin "p%d"\n' % i for i in range(20000)))
probe_wide_text = _stack_probe("; " + "\u00e9" * 40000 + "\n")

BIG = "79000000000000000000000000000"
HEAD = "2020-01-01 open Assets:A\n2020-01-01 open Assets:B\n"
probe_div = _arith_probe(HEAD + "2020-01-02 balance Assets:A 1/0 USD\n")
probe_mul = _arith_probe(HEAD + f"2020-01-02 balance Assets:A {BIG}*10 USD\n")
probe_add = _arith_probe(HEAD + f"2020-01-02 *\n  Assets:A {BIG} USD\n  Assets:B -{BIG} USD\n2020-01-03 *\n  Assets:A {BIG} USD\n  Assets:B -{BIG} USD\n")
probe_sub = _arith_probe(HEAD + f"2020-01-02 *\n  Assets:A {BIG} USD\n  Assets:B -{BIG} USD\n2020-01-03 balance Assets:A -{BIG} USD\n")


# ------------------------------------------------------------- C19: logging changes nothing

def tree(d):
    out = {}
    for base, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(base, f)
            with open(q, "rb") as g:
                out[os.path.relpath(q, d)] = g.read()
        for f in ds:
            out[os.path.relpath(os.path.join(base, f), d) + "/"] = None
    return out


def kind_logging(ctx, rng, res):
    try:
        path, led, text, ds, planted = source(ctx, rng)
    except DEAD:
        res.inconclusive += 1
        return
    d = os.path.dirname(path)
    lines = [req(rng.choice(QUESTIONS + ["status"]), k) for k in range(rng.randrange(1, 8))] + [disturbance(rng, ds) for _ in range(rng.randrange(3))]
    if rng.random() < 0.15:
        # requests and answers longer than any buffer
        n = rng.choice([9000, 17000, 66000, 140000])
        if rng.random() < 0.5:
            lines.append(req("parser.create-synthetic-spans", 7, params=[{"name": "long", "content": "x" * n}]))
        else:
            lines.append(req("parser.format-errors", 5, params=[{"message": "m" * n, "reason": "r", "span": [0, 0, 1]}]))
        res.obs("long-lines")
    rng.shuffle(lines)
    before = tree(d)
    plain = ctx.serve(path, lines, cwd=d)
    after = tree(d)
    logs = ctx.fresh()
    level = rng.choice([None, "trace", "debug", "info", "warn", "error", "off", "limabean=debug", "nonsense=,", ""])
    name = rng.choice(["pod.log", ".pod.log", "caf\u00e9.log", "sub.d/pod.log", "relative", "sub\udce9/pod.log"])
    lp = os.path.join(logs, name)
    env = {"LIMABEAN_POD_LOG": lp if name != "relative" else "pod.log", "RUST_LOG": rng.choice(["trace", "off", "debug"])}
    if level is not None:
        env["LIMABEAN_POD_LOG_LEVEL"] = level
    if name.startswith("sub"):
        os.mkdir(os.path.dirname(lp))
    if rng.random() < 0.3:
        # a log already there is added to
        with open(lp if name != "relative" else os.path.join(logs, "pod.log"), "w") as f:
            f.write("earlier\n")
        earlier = True
    else:
        earlier = False
    hopeless = None
    if rng.random() < 0.12:
        # a log that cannot be had: said so, and the conversation goes on without
        hopeless = rng.choice(["is-directory", "under-a-file", "under-dangling", "directory/", "dots", "not-unicode"])
        lp = os.path.join(logs, "no")
        if hopeless == "is-directory":
            os.mkdir(lp)
        elif hopeless == "directory/":
            os.mkdir(lp)
            lp += "/"
        elif hopeless == "dots":
            lp = rng.choice([logs + "/..", "..", "/", ".", logs + "/x/.."])
        elif hopeless == "not-unicode":
            lp = os.fsencode(logs) + b"/caf\xe9.log"
        elif hopeless == "under-a-file":
            open(lp, "w").close()
            lp = os.path.join(lp, "pod.log")
        else:
            os.symlink("/proc/none-such/none", lp)
            lp = os.path.join(lp, "pod.log")
        env["LIMABEAN_POD_LOG"] = lp
    run = ctx.serve(path, lines, env=ctx.env(**env), cwd=logs if name == "relative" else d)
    res.case((level, name, earlier, led is None, len(lines), hopeless))
    res.obs("logged-" + str(level))
    if plain.rc != 0 and arithmetic_death(plain, text):
        res.inconclusive += 1
        return
    if not res.served(plain) or not res.served(run):
        res.files["files"] = text
        return
    if not hopeless and level != "nonsense=,":
        res.obs("logged-silently")
        if run.err:
            res.viol("stderr", f"with logging at level {level}, wrote {run.err[:300]!r} to standard error")
    if plain.err:
        res.viol("stderr", f"without logging, wrote {plain.err[:300]!r} to standard error")
    unparsable = planted
    if after != before:
        res.viol("files", f"files changed by answering: {sorted(set(before) ^ set(after)) or [k for k in before if before[k] != after[k]]}")
    for a, b, l in zip(plain.responses(), run.responses(), lines):
        x = W.differing(W.canon(a.get("id")), W.canon(b.get("id"))) or (same_answer(a, b, led, unparsable) if not ("error" in a and "error" in b and lit(a["error"]["code"]).startswith("-")) else W.differing(W.canon(a), W.canon(b)))
        if '"params"' in l and x and "result" not in a:
            # another ledger's complaints may be worded as a dependency likes
            continue
        if x:
            res.viol("logging", f"with logging, {l[:150]} answered differently: {x}")
            break
    if tree(d) != before:
        res.viol("files", "files changed by answering with logging")
    q = lp if name != "relative" else os.path.join(logs, "pod.log")
    if hopeless:
        res.obs("hopeless-log")
        if not run.err.strip():
            res.viol("log", f"nothing was said of a log that cannot be written: {hopeless}")
    elif not os.path.exists(q):
        res.viol("log", f"no log was written at {q}: {sorted(tree(logs))}")
    else:
        t = open(q, "rb").read().decode(errors="replace")
        if earlier and not t.startswith("earlier\n"):
            res.viol("log", "what the log held before is gone")
        extra = [k for k in tree(logs) if not k.endswith("/") and os.path.join(logs, k) != q]
        if extra:
            res.viol("log", f"other files written: {extra}")
        if level in (None, "trace", "debug", ""):
            # the log shows the conversation: each request, then its answer
            pos = 0
            for l, raw in zip(lines, run.raw):
                for arrow, x in (("<- ", l.strip()), ("-> ", raw.decode())):
                    if not x.isprintable():
                        continue
                    at = t.find(arrow + x, pos)
                    if at < 0:
                        res.viol("log", f"{arrow}{x[:200]!r} is not in the log, or out of order")
                        break
                    pos = at + len(arrow)
                    res.obs("log-line")
                if res.viols:
                    break
        elif level in ("off", "error", "warn") and t not in ("", "earlier\n"):
            res.viol("log", f"at level {level} the log has {t[:200]!r}")
    if res.viols:
        res.files.update(files=text, requests="\n".join(lines))


# ------------------------------------------------------------- C25: what is refused leaves no trace

REMOVABLE = {"booking", "acc-not-open", "acc-closed", "double-open", "reopen", "currency", "close-not-open", "pad-self", "pad-unused", "pad-not-needed"}


def kind_removal(ctx, rng, res):
    """without a refused directive, exactly its own complaint goes away"""
    try:
        prof = rng.choice([B.ERRS, B.ERRS, B.LIFE, B.CURS, B.HOLD, B.PAD, B.INTERP])(rng)
        prof["err"] = 0.8
        L = B.make(rng, prof)
    except DEAD:
        res.inconclusive += 1
        return
    a = ctx.ask(L.text, ("book", {"params": L.ds}))
    if not res.served(a):
        res.files["ledger"] = L.text
        return
    e = a.responses()[0].get("error")
    if e is None:
        res.case(B.profile_sig(L), nontrivial=False)
        return
    reps = W.indexed(e["data"])
    kinds = [compare.kind_of(r["reason"]) for r in reps]
    at = {}
    for r, k in zip(reps, kinds):
        at.setdefault(r["idx"][0], set()).add(k)
    out = []
    for i, ks in at.items():
        d = L.ds[i]
        # an amount to be padded which is not to be had is complained of at the pad, which had been in order
        if ks <= REMOVABLE and not (d["dct"] == "pad" and ks & {"currency"}):
            out.append({i})
        elif ks == {"pad-second"}:
            # both that pad and the second are refused
            out.append({i} | {x[0] for r in reps if r["idx"][0] == i for x in r["related"] or []})
    res.case((B.profile_sig(L), len(out)), nontrivial=bool(out))
    if not out:
        return
    for some in [out] + [rng.sample(out, rng.randrange(1, len(out) + 1))] + [[rng.choice(out)]]:
        gone = set().union(*some)
        keep = [i for i in range(len(L.ds)) if i not in gone]
        new = {i: k for k, i in enumerate(keep)}
        leans = [(r, x[0]) for r in reps if r["idx"][0] not in gone for x in r["related"] or [] if x[0] in gone]
        if leans:
            res.viol("trace", f"what was refused at {leans[0][1]} is held against another: {show(leans[0][0])}")
            break
        exp = [{**r, "idx": [new[r["idx"][0]]] + r["idx"][1:], "related": None if r["related"] is None else [[new[x[0]]] + x[1:] for x in r["related"]]}
               for r in reps if r["idx"][0] not in gone]
        run = ctx.serve(a.path, [req("book", 1, params=[L.ds[i] for i in keep])])
        if not res.served(run):
            break
        b = run.responses()[0]
        for i in gone:
            for k in at.get(i, ()):
                res.obs("removed-" + k)
            res.obs("removed-dct-" + L.ds[i]["dct"])
        if not exp:
            res.obs("removed-all")
            if "result" not in b:
                res.viol("trace", f"without the refused directives {sorted(gone)}, the rest is refused: {show(b)[:600]}")
        elif "error" not in b:
            res.viol("trace", f"without {sorted(gone)} all is booked, but there were complaints of {[r['idx'] for r in exp]}")
        else:
            got = W.indexed(b["error"]["data"])
            d = loosely(exp, got)
            if d:
                res.viol("trace", f"without the refused directives {sorted(gone)}: {d}")
        if res.viols:
            break
    if res.viols:
        res.files.update(ledger=L.text, reports=show(reps))


def loosely(exp, got):
    """the same complaints; the wording of a booking failure may be chosen at random by a dependency"""
    if len(exp) != len(got):
        return f"{len(exp)} complaints expected, at {[r['idx'] for r in exp]}, got {[(r['idx'], r['reason']) for r in got]}"
    for x, y in zip(exp, got):
        if compare.kind_of(x["reason"]) == "booking" == compare.kind_of(y["reason"]):
            if x["idx"][0] != y["idx"][0]:
                return f"{x} vs {y}"
        elif x != y:
            return f"{x} vs {y}"
    return None


# ------------------------------------------------------------- C26: layout does not matter

def bare(x):
    """an answer without places"""
    if isinstance(x, dict):
        return {k: bare(v) for k, v in x.items() if k != "span"}
    if isinstance(x, list):
        return [bare(v) for v in x]
    return x


def kind_layout(ctx, rng, res):
    """the same directives in two layouts: order in the file, spacing, comments, line ends"""
    try:
        L = B.make(rng, rng.choice([B.FIELDS, B.ERRS, B.PAD, B.LOTS, B.BAL, B.LIFE])(rng), plain=True, order=None)
    except DEAD:
        res.inconclusive += 1
        return
    order = gen.interleave(L.ds, rng)
    st = gen.Style(rng, plain=False)
    text, spans = gen.render(L.ds, L.optlines, st, order)
    w = compare.Where(text, spans, L.ds)
    r1 = ctx.ask(L.text, "parser.directives", "book", "parser.options", name="a.beancount")
    data = text
    eol = "lf"
    if rng.random() < 0.3 and not any("\n" in s for s in strings_in(L.ds)):
        data = text.replace("\n", "\r\n")
        eol = "crlf"
    elif rng.random() < 0.2 and text.endswith("\n"):
        data = text.rstrip("\n")
        eol = "unended"
    r2 = ctx.ask(data, "parser.directives", "book", "parser.options", name="b.beancount")
    res.case((B.profile_sig(L), eol))
    res.obs("layout-" + eol)
    if order != list(range(len(L.ds))):
        res.obs("reordered")
    if res.served(r1) and res.served(r2):
        (p1, b1, o1), (p2, b2, o2) = r1.responses(), r2.responses()
        if "result" not in p1 or "result" not in p2:
            res.viol("parse", f"{show(p1)[:300]} vs {show(p2)[:300]}")
        else:
            d = W.differing(W.canon(bare(p1["result"])), W.canon(bare(p2["result"]))) or W.differing(W.canon(o1["result"]), W.canon(o2["result"]))
            if d:
                res.viol("parsed", d)
            elif eol == "crlf":
                # places move; the complaints do not
                if ("result" in b1) != ("result" in b2) or "result" in b1 and W.differing(W.canon(b1["result"]), W.canon(b2["result"])) or \
                        "error" in b1 and len(b1["error"]["data"]) != len(b2["error"]["data"]):
                    res.viol("outcome", f"{show(b1)[:300]} vs {show(b2)[:300]}")
            else:
                d = W.same_outcome(b1, b2, L.where, w, L.led)
                if d:
                    res.viol("outcome", d)
            res.obs("layout-booked" if "result" in b1 else "layout-refused")
    if res.viols:
        res.files.update(one=L.text, two=data)


def strings_in(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from strings_in(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from strings_in(v)


GROUP_ORDER = """2020-01-01 open Assets:A
2020-01-01 open Assets:Cash
2020-01-02 *
  Assets:A  10 GOOG {5 USD}
  Assets:Cash  -50 USD
2020-01-03 *
  Assets:A  4 GOOG {6 EUR}
  Assets:Cash  -24 EUR
  Assets:A  -7 GOOG {} @ 5 USD
  Assets:Cash  35 USD
"""


def probe_group_order(ctx, res):
    """bought for one currency and sold for another in one transaction: sometimes booked, sometimes not"""
    booked, refused = set(), set()
    for _ in range(24):
        run = ctx.ask(GROUP_ORDER, "book")
        if not res.served(run):
            return "died"
        a = run.responses()[0]
        if "error" in a:
            refused.add(tuple(r["reason"] for r in a["error"]["data"]))
        else:
            booked.add(W.dumps_num(a["result"]))
    if len(booked) + len(refused) == 1:
        return None
    if len(booked) == 1 and refused == {("ambiguous matches on posting 2",)}:
        return "known"
    return repr((booked, refused))


def probe_currency_order(ctx, res):
    text = ("2020-01-01 open Assets:A\n2020-01-01 open Assets:B\n"
            "2020-01-02 *\n  Assets:A  1 USD\n  Assets:A  1 GBP\n  Assets:A  1 NZD\n  Assets:A  1 CHF\n  Assets:B\n")
    seen = set()
    for _ in range(16):
        run = ctx.ask(text, "book")
        if not res.served(run):
            return "died"
        a = run.responses()[0]
        if "error" not in a:
            return show(a)
        seen.add(a["error"]["data"][0].get("reason"))
    if len(seen) == 1:
        return None
    head = "can't have auto-post with multiple currencies "
    if all(r.startswith(head) and sorted(r[len(head):].split(",")) == ["CHF", "GBP", "NZD", "USD"] for r in seen):
        return "known"
    return repr(seen)
