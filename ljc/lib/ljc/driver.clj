(ns ljc.driver
  "One job a line on standard input, as EDN; one answer a line on standard output, as tagged JSON.

  {:load PATH, :evals [EXPR ...], :keep BOOLEAN} loads the beanfile as the REPL does, unless there is none, and evaluates the
  expressions one after another in the namespace user; each has its own value or exception, and its own output."
  (:require [clojure.edn :as edn]
            [limabean]
            [limabean.user]))

(def ^:private stdout *out*)

(defn- captured
  "Run f; what it returned or threw, and what it wrote to *out* and *err*."
  [f]
  (let [out (java.io.StringWriter.)
        err (java.io.StringWriter.)
        result (binding [*out* out, *err* err]
                 (try {:value (f)}
                      (catch Exception e {:thrown (thrown* e)})
                      (catch StackOverflowError e {:thrown (thrown* e)})))]
    (assoc result
           :out (str out)
           :err (str err))))

(defn- realized
  "The value as tagged JSON: an exception while it is being realized is part of evaluating it."
  [x]
  (wire* x))

(defn- in-user [f] (binding [*ns* (the-ns 'user)] (f)))

(defn- reap
  "End the processes left running; how many there were."
  []
  (let [left (iterator-seq (.iterator (.children (java.lang.ProcessHandle/current))))
        live (filterv #(.isAlive %) left)]
    (run! #(.destroyForcibly %) live)
    ;; not before they are gone: the next job counts what runs
    (run! #(.get (.onExit %) 60 java.util.concurrent.TimeUnit/SECONDS) live)
    (count live)))

(defn- job
  [{:keys [load evals keep]}]
  (let [loaded (when load (captured #(do (limabean.user/load-beanfile load) nil)))
        results (mapv (fn [e]
                        (let [r (captured #(in-user (fn [] (realized (eval (read-string e))))))]
                          r))
                  evals)
        live (count (filterv #(.isAlive %) (iterator-seq (.iterator (.children (java.lang.ProcessHandle/current))))))]
    (when-not keep
      (reap)
      (alter-var-root #'limabean.user/*beans* (constantly nil)))
    (str "{\"loaded\":" (if loaded (wire* loaded) "null")
         ",\"live\":" live
         ",\"results\":["
         (apply str (interpose "," (map (fn [r]
                                          (str "{\"value\":" (if (contains? r :value) (:value r) "null")
                                               ",\"thrown\":" (wire* (:thrown r))
                                               ",\"out\":" (wire* (:out r))
                                               ",\"err\":" (wire* (:err r)) "}"))
                                        results)))
         "]}")))

(defn -main
  [& _]
  (in-user
    (fn []
      (require '[limabean :refer [version]])
      (require '[limabean.user :refer :all])
      (require '[limabean.core.filters :as f])
      (require '[limabean.core.type :as type])
      (require '[limabean.adapter.exception :refer [*exception*]])
      (require '[clojure.pprint :refer [pprint]])))
  (loop []
    (when-let [l (read-line)]
      (let [answer (try (job (edn/read-string l))
                        (catch Throwable e (str "{\"machinery\":" (wire* (str e)) "}")))
            answer (if-let [g (gaps*)] (str "{\"gap\":" (wire* g) "}") answer)]
        (.write stdout (str answer "\n"))
        (.flush stdout))
      (recur))))
