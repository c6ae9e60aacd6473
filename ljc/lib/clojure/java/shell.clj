(ns clojure.java.shell)
(defn sh [& args]
  (let [[cmd opts] (split-with string? args)
        opts (apply hash-map opts)]
    (sh* (vec cmd) (:in opts) (:dir opts))))
