(ns lb.p-4-x (:require [lb.ops :as ops]))

(def seen "what it was last resolved with" (atom nil))

(defn raw-xf [args] (reset! seen args) (ops/raw args))

(defn booked-xf [args] (ops/booked args))
