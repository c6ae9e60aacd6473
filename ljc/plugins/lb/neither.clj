(ns lb.neither)
(defn xf [_] identity)
