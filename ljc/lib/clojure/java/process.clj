(ns clojure.java.process)
(defn start [& args]
  (let [[opts cmd] (if (map? (first args)) [(first args) (rest args)] [{} args])]
    (doseq [k (keys opts)] (when-not (contains? #{:in :out :err :dir} k) (ljc-unsupported (str "process option " k))))
    (process-start* (vec cmd) opts)))
(defn stdin [p] (.getOutputStream p))
(defn stdout [p] (.getInputStream p))
(defn stderr [p] (.getErrorStream p))
