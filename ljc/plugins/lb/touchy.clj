(ns lb.touchy)
(defn raw-xf [{:keys [config]}] (if (:boom config) (throw (ex-info (:boom config) {})) identity))
