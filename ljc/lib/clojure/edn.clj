(ns clojure.edn)
(defn read-string
  ([s] (read-string {:eof nil} s))
  ([opts s] (when s (read-edn* s (:readers opts) (:default opts) (get opts :eof :ljc/none)))))
(defn read [& _] (ljc-unsupported "clojure.edn/read"))
