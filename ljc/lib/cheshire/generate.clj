(ns cheshire.generate)
(def encoders (atom {}))
(defn add-encoder [c f] (swap! encoders assoc c f))
(defn remove-encoder [c] (swap! encoders dissoc c))
