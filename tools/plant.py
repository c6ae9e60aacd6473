"""Makes and tries planted bugs.  Not used by any check.

plant.py make SPEC.py        write /verif/seeded/<id>/ for each bug of the spec
plant.py try [ID...]         apply each to a copy of /repo, build, test, demo, run the property's check (and others with --all)
                             -jN: N at once; --seed=N

All in copies under /tmp/pw, which it removes.
"""
import json
import os
import queue
import shutil
import subprocess
import sys
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PW = "/tmp/pw"
ENV = {"HOME": "/root", "RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "CARGO_INCREMENTAL": "1",
       "CARGO_PROFILE_DEV_DEBUG": "line-tables-only"}
HELP = '''"""helper of the demonstration: run the built server on a ledger in a scratch directory"""
import json, os, subprocess, sys, tempfile
BIN = os.path.join(os.getcwd(), "rust", "target", "debug")


def lines(ls, path, env=None):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/tmp"}
    e.update(env or {})
    p = subprocess.run([os.path.join(BIN, "limabean-pod"), "serve", path], input="".join(l + "\\n" for l in ls).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=60)
    return p


def pod(text, *reqs, **kw):
    """answers to requests: a method, or (method, params), or a whole line"""
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "l.beancount")
        for name, t in dict({"l.beancount": text} if isinstance(text, str) else text).items():
            with open(os.path.join(d, name), "wb") as f:
                f.write(t.encode())
        ls = []
        for i, r in enumerate(reqs):
            if isinstance(r, str) and r.startswith("{"):
                ls.append(r)
                continue
            m, p = (r, None) if isinstance(r, str) else r
            q = {"jsonrpc": "2.0", "id": i + 1, "method": m}
            if p is not None:
                q["params"] = p
            ls.append(json.dumps(q))
        p = lines(ls, path, **kw)
        if p.returncode != 0:
            sys.exit("server died: " + p.stderr.decode()[-500:])
        out = p.stdout.decode().splitlines()
        if len(out) != len(ls):
            sys.exit("%d answers to %d requests" % (len(out), len(ls)))
        return [json.loads(l) for l in out]


def check(got, want, what=""):
    if got != want:
        sys.exit("%s: got %r, expected %r" % (what, got, want))
'''


CLJHELP = '''"""helper of the demonstration: run limabean.main from the Clojure sources of the repository, in the interpreter beside this file,
against the built limabean-pod, in a scratch directory"""
import atexit, os, shutil, subprocess, sys, tarfile, tempfile
REPO = os.getcwd()
HERE = os.path.dirname(os.path.abspath(__file__))
TMP = tempfile.mkdtemp()
atexit.register(shutil.rmtree, TMP)
with tarfile.open(os.path.join(HERE, "ljc.tgz")) as t:
    t.extractall(TMP)
LJC = os.path.join(TMP, "ljc")
subprocess.run("javac -encoding UTF-8 -nowarn -d classes src/ljc/*.java", shell=True, cwd=LJC, check=True)


def run(text, expr, args=None, env=None, plugins={}, files={}, data=b"", keep=None):
    """(standard output, standard error, status) of limabean --beanfile l.beancount --eval EXPR"""
    d = tempfile.mkdtemp(dir=TMP)
    for n, t in [("l.beancount", text)] + list(files.items()) + [("plugins/" + n.replace(".", "/").replace("-", "_") + ".clj", t) for n, t in plugins.items()]:
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t.encode())
    e = {"PATH": os.path.join(REPO, "rust", "target", "debug") + ":" + os.environ.get("PATH", "/usr/bin:/bin"), "HOME": d, "LANG": "C.UTF-8",
         "LJC_LIB": os.path.join(LJC, "lib"), "LJC_PATH": os.path.join(REPO, "clj", "src") + ":" + os.path.join(d, "plugins")}
    e.update(env or {})
    a = ["--beanfile", "l.beancount", "--eval", expr] if args is None else args
    p = subprocess.run(["java", "-Xss2m", "-XX:TieredStopAtLevel=1", "-Dfile.encoding=UTF-8", "-cp", os.path.join(LJC, "classes"), "ljc.Launch"] + a, cwd=d, env=e,
                       input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if keep is not None:
        for b, _, fs in os.walk(d):
            for f in fs:
                keep[os.path.relpath(os.path.join(b, f), d)] = open(os.path.join(b, f), "rb").read().decode(errors="replace")
    return p.stdout.decode(), p.stderr.decode(), p.returncode


def check(got, want, what=""):
    if got != want:
        sys.exit("%s: got %r, expected %r" % (what, got, want))
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def copy(k):
    """a copy of both repositories, as committed in /repo and as they stand in /verif"""
    d = os.path.join(PW, str(k))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f"cp -a /repo {d}/repo && git -C {d}/repo checkout -q -- . && cp -a {V} {d}/verif")
    return d


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    d0 = os.path.join(PW, "make")
    shutil.rmtree(d0, ignore_errors=True)
    os.makedirs(PW, exist_ok=True)
    sh(f"git clone -q /repo {d0}")
    for b in g["BUGS"]:
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        for f, old, new in b["edits"]:
            p = os.path.join(d0, f if f.startswith("clj/") else "rust/src/" + f)
            s = open(p).read()
            if s.count(old) != 1:
                print(f"{b['id']}: {s.count(old)} matches in {f} of {old!r}")
                continue
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", d0, "diff"], stdout=subprocess.PIPE).stdout
        sh(f"git -C {d0} checkout -- .")
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/sh\n# run with cwd at the repository, after the build\nexec python3 "$(dirname "$0")/demo.py"\n')
        clj = any(f.startswith("clj/") for f, _, _ in b["edits"])
        open(os.path.join(d, "helper.py"), "w").write(CLJHELP if clj else HELP)
        if clj:
            sh(f"tar czf {d}/ljc.tgz -C {V} --exclude=plugins ljc")
        open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom helper import *\n\n" + b["demo"].strip() + "\n")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", b["id"])
    shutil.rmtree(d0, ignore_errors=True)


BUILD = "cargo build --workspace --locked --offline && cargo test --workspace --no-run --locked --offline"


def one(w, i, checks, every, seed):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    repo, env = w + "/repo", dict(os.environ, **ENV)
    out = [i, meta["property"]]
    sh(BUILD, cwd=repo + "/rust", env=env)
    clean = sh(f"sh {d}/demo.sh", cwd=repo)
    out.append(f"clean={clean.returncode}")
    if clean.returncode:
        out.append(clean.stdout.decode()[-300:])
    try:
        a = sh(f"git apply {d}/patch.diff", cwd=repo)
        if a.returncode:
            return out + ["DOES NOT APPLY " + a.stdout.decode()]
        b = sh(BUILD, cwd=repo + "/rust", env=env)
        if b.returncode:
            return out + ["DOES NOT BUILD " + b.stdout.decode()[-2500:]]
        t = sh("cargo test --workspace --no-fail-fast --locked --offline", cwd=repo + "/rust", env=env)
        m = sh(f"sh {d}/demo.sh", cwd=repo)
        out += [f"tests={t.returncode}", f"demo={m.returncode}"]
        if m.returncode == 0 or t.returncode:
            out.append("BAD PLANT")
        caught = []
        for c in [meta["property"]] + ([x for x in checks if x != meta["property"]] if every else []):
            r = sh(f"python3 check.py {c} --tier quick", cwd=w + "/verif", env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER="quick", LB_REPO=repo))
            o = r.stdout.decode()
            if r.returncode == 1 and f"VIOLATION property={c} " in o:
                caught.append(c)
            elif r.returncode != 0:
                caught.append(f"{c}:rc={r.returncode}")
        return out + [("CAUGHT " if meta["property"] in caught else "MISSED ") + ",".join(caught)]
    finally:
        sh("git checkout -- .", cwd=repo)


def attempt(ids, every, jobs, seed):
    ids = ids or sorted(os.listdir(os.path.join(V, "seeded")))
    checks = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    q = queue.Queue()
    for i in ids:
        q.put(i)

    def work(k):
        w = copy(k)
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                break
            print(*one(w, i, checks, every, seed), flush=True)
        shutil.rmtree(w, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(min(jobs, len(ids)))]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for s in sys.argv[2:]:
            make(s)
    else:
        a = [x for x in sys.argv[2:] if not x.startswith("-")]
        jobs = next((int(x[2:]) for x in sys.argv if x.startswith("-j")), 1)
        seed = next((x[7:] for x in sys.argv if x.startswith("--seed=")), "1")
        attempt(a, "--all" in sys.argv, jobs, seed)
