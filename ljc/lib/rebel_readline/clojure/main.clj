(ns rebel-readline.clojure.main)
;; a plain reader of forms from standard input
(defn repl [& {:keys [init caught]}]
  (try (init) (catch Exception e (caught e)))
  (loop []
    (let [line (read-line)]
      (when line
        (when-not (clojure.core/empty? (.trim line))
          (try (prn (eval (read-string line))) (catch Exception e (caught e))))
        (recur)))))
