#!/usr/bin/env python3
"""the interpreter against what Clojure answers: python3 ljc/test/run.py"""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from lb import clj
cases = []
for l in open(os.path.join(V, "ljc", "test", "conformance.txt"), encoding="utf-8"):
    l = l.rstrip("\n")
    if " => " not in l or l.startswith(";;"):
        continue
    e, w = l.rsplit(" => ", 1)
    if w != "skip":
        cases.append((e, w))
q = lambda s: '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
d = tempfile.mkdtemp()
open(os.path.join(d, "conf.clj"), "w").write("""(ns conf (:require [clojure.string] [clojure.set] [clojure.walk] [clojure.edn] [clojure.java.io]))
(defn -main [& _]
  (doseq [[e w] [%s]]
    (let [g (try (binding [*ns* (the-ns 'user)] (pr-str (eval (read-string e)))) (catch Throwable t (str "threw " t)))]
      (when-not (= g w) (println e "\\n   gives " g "\\n   not   " w)))))""" % "\n".join("[%s %s]" % (q(e), q(w)) for e, w in cases))
p = subprocess.run(clj.java(clj.build(d), [d]) + ["-m", "conf"], capture_output=True, text=True)
print(p.stdout + p.stderr[-2000:] + "%d cases" % len(cases))
sys.exit(1 if p.stdout or p.returncode else 0)
