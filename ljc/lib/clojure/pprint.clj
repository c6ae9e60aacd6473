(ns clojure.pprint)
(defn pprint ([x] (prn x)) ([x w] (binding [*out* w] (prn x))))
(defn cl-format [& _] (ljc-unsupported "cl-format"))
(defn print-table [& _] (ljc-unsupported "print-table"))
