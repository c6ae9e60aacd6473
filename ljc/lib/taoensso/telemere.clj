(ns taoensso.telemere)
;; signals are evaluated and written nowhere
(defn log! ([x] true) ([x y] true))
(defn remove-handler! [id] nil)
(defn add-handler! [& _] nil)
(defn handler:file [& _] nil)
(defn pr-signal-fn [& _] identity)
(defn call-on-shutdown! [f] nil)
(defn stop-handlers! [] nil)
